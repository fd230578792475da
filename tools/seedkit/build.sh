# Builds demo.cpp of this folder against the sources of the current directory with the stand-ins beside it.
# usage: . "$(dirname "$0")/build.sh"; build NDIM GEOM EOS GRAVITY SETUP   (SETUP: a directory, or "" for no main program)
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work" DEMO_SCRATCH="$work"
build() {
    local ndim=$1 geom=$2 eos=$3 grav=$4 setup=$5 inc f o
    mkdir -p "$work/cfg" "$work/o"
    for f in "$repo"/src/utils/*.in; do
        sed -e "s/@Heraclespp_EOS@/$eos/g; s/@Heraclespp_GEOM@/$geom/g; s/@Heraclespp_NDIM@/$ndim/g" \
            -e "s/@GIT_BUILD_STRING@/x/g; s/@GIT_BRANCH@/x/g; s/@DATE_STRING@/x/g; s/@TIME_STRING@/x/g" "$f" > "$work/cfg/$(basename "$f" .in)"
    done
    inc="-I$work/cfg -I$here -I$here/stubs/kokkos -I$here/stubs/mpi -I$here/stubs/pdi -I$repo/vendor/inih/include -I$repo/src"
    for f in "$repo"/src/*/; do
        [ "$(basename "$f")" = setups ] || inc="$inc -I$f"
    done
    inc="$inc -isystem /usr/include/hdf5/openmpi"
    local fl="-std=c++20 -w -O1 -pthread -DHERACLESPP_GRAVITY_$grav $inc"
    {
        find "$repo/src" -name '*.cpp' -not -path '*/setups/*' -not -path "$repo/src/main.cpp"
        echo "$work/cfg/git_version.cpp"
        echo "$here/stubs/pdi/pdi_stub.cpp"
        echo "$repo/vendor/inih/src/INIReader.cpp"
        echo "$here/demo.cpp"
        [ -z "$setup" ] || echo "$repo/src/main.cpp"
    } > "$work/list"
    echo '#define MY_SETUP "demo"' > "$work/cfg/my_setup.hpp"
    gcc -w -O1 -c "$repo/vendor/inih/src/ini.c" -I"$repo/vendor/inih/include" -o "$work/o/ini_c.o" || exit 2
    export fl setup work
    xargs -P 8 -I{} bash -c '
        x=""; [ "$(basename "{}")" = main.cpp ] && x="-Dmain=heraclespp_main -include $work/cfg/my_setup.hpp -I$setup"
        g++ $fl $x -c "{}" -o "$work/o/$(echo "{}" | tr / _).o" 2> "$work/err.$(echo "{}" | tr / _)" || { cat "$work/err.$(echo "{}" | tr / _)" >&2; exit 255; }' < "$work/list" || exit 2
    g++ -pthread -o "$work/demo" "$work"/o/*.o -lhdf5_openmpi -lyaml-cpp -lpthread -ldl || exit 2
}
