// O11: a run gives back everything it takes, and holds no more when it is longer.
#include <dirent.h>

#include <runs.hpp>

using namespace hz;

namespace {

// the identifiers of HDF5 grow by one for each object of a kind: those between two moments that are still valid are open
using Ids = std::map<std::string, hid_t>;
Ids hdf5_now()
{
    static std::string const path = pbt::cat(scratch_dir("o11h"), "/h.h5");
    static hid_t const keep = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    Ids n;
    hid_t const space = H5Screate(H5S_SCALAR);
    hid_t const type = H5Tcopy(H5T_C_S1);
    hid_t const list = H5Pcreate(H5P_FILE_ACCESS);
    hid_t const file = H5Freopen(keep);
    hid_t const group = H5Gopen2(file, "/", H5P_DEFAULT);
    if (H5Lexists(file, "d", H5P_DEFAULT) <= 0) {
        hid_t const d = H5Dcreate2(file, "d", H5T_NATIVE_INT, space, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        H5Aclose(H5Acreate2(d, "a", H5T_NATIVE_INT, space, H5P_DEFAULT, H5P_DEFAULT));
        H5Dclose(d);
    }
    hid_t const dset = H5Dopen2(file, "d", H5P_DEFAULT);
    hid_t const attr = H5Aopen(dset, "a", H5P_DEFAULT);
    n["dataspaces"] = space;
    n["datatypes"] = type;
    n["property lists"] = list;
    n["files"] = file;
    n["groups"] = group;
    n["datasets"] = dset;
    n["attributes"] = attr;
    for (auto const& [k, id] : n) {
        if (id < 0) {
            throw std::runtime_error("harness: no HDF5 " + k);
        }
    }
    H5Aclose(attr);
    H5Dclose(dset);
    H5Gclose(group);
    H5Fclose(file);
    H5Pclose(list);
    H5Tclose(type);
    H5Sclose(space);
    return n;
}

long descriptors()
{
    long n = 0;
    if (DIR* const d = opendir("/proc/self/fd")) {
        while (readdir(d) != nullptr) {
            ++n;
        }
        closedir(d);
    }
    return n;
}

struct Before
{
    Ids h5;
    long fds;

    Before() : h5(hdf5_now()), fds(descriptors()) { }
    void same(std::string const& what) const
    {
        for (auto const& [k, last] : hdf5_now()) {
            long n = 0;
            for (hid_t id = h5.at(k); id <= last; ++id) {
                n += H5Iis_valid(id) > 0 ? 1 : 0;
            }
            if (n != 0) {
                pbt::fail(what, " leaves ", n, " HDF5 ", k, " open");
            }
        }
        long const now = descriptors();
        if (now != fds) {
            pbt::fail(what, " leaves ", now - fds, " files open");
        }
    }
};

void released(RunResult const& x, std::string const& what)
{
    for (std::size_t k = 0; k < x.kept.size(); ++k) {
        REQUIRE(x.kept[k] == 0, what, " leaves ", x.kept[k], " arrays allocated on rank ", k);
    }
}
// a run that ends well
void complete(RunResult const& x, std::string const& what)
{
    released(x, what);
    REQUIRE(x.o.unfreed == 0, what, " does not free ", x.o.unfreed, " of its communicators");
    for (std::size_t k = 0; k < x.pdi.size(); ++k) {
        REQUIRE(x.pdi[k] == 0, what, " does not finalize PDI on rank ", k);
        REQUIRE(x.closed[k] != 0, what, " does not finalize MPI and Kokkos on rank ", k);
    }
}
int iterations(std::map<std::string, H5File> const& out)
{
    return out.empty() ? -1 : out.rbegin()->second.integer("iter");
}

void warm_up()
{
    static bool done = false;
    if (!done) {
        // what the libraries keep for themselves is there after a first run
        done = true;
        Ini ini;
        for (int d = 0; d < 3; ++d) {
            ini.set("Grid", "Nx" + std::to_string(d) + "_glob", d < ndim ? 4 : 1);
        }
        ini.set("Run", "t_end", 1);
        ini.set("Output", "max_iter", 1);
        ini.set("Output", "iter_frequency", 1);
        ini.set("Boundary Condition", "BC", "NullGradient");
        std::string const dir = scratch_dir("o11w");
        run_program(ini, dir, Machine {});
    }
}

} // namespace

PBT_TEST(length, 1)
{
    warm_up();
    RunOpt o;
    o.shift = true;
    o.pressure_fix = true;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (1e3 * r.dt_est));
    r.ini.set("Output", "iter_frequency", c.i(1, 2));
    if (c.chance(1, 3)) {
        r.ini.set("Output", "time_frequency", c.d(0.5, 2.) * r.dt_est);
    }
    int const n1 = c.i(3, 5);
    int const more = c.i(12, 24);
    Machine const m = random_machine(c, r, 4);
    c.note("%s | %s | %d and %d more iterations", r.ini.show().c_str(), show(m).c_str(), n1, more);
    r.ini.set("Output", "max_iter", n1);
    Before const start;
    std::string const d1 = scratch_dir("o11a");
    RunResult const x = run_program(r.ini, d1, m);
    c.discard_if(!x.success());
    start.same("the run");
    complete(x, "the run");
    r.ini.set("Output", "max_iter", n1 + more);
    std::string const d2 = scratch_dir("o11b");
    RunResult const y = run_program(r.ini, d2, m);
    if (!y.success()) {
        // the flow of a longer run may become invalid
        c.label("longer run ends with an error");
        released(y, "a run that ends with an error");
        start.same("a run that ends with an error");
        return;
    }
    start.same("the longer run");
    complete(y, "the longer run");
    auto const out1 = outputs(d1);
    auto const out2 = outputs(d2);
    for (int k = 0; k < m.n; ++k) {
        long const grown = y.peak[k] - x.peak[k];
        REQUIRE(grown < more / 2, "after ", iterations(out2), " iterations rank ", k, " has up to ", y.peak[k], " arrays at a time, ", x.peak[k], " after ", iterations(out1));
    }
    // and from a file
    if (out2.size() > 2) {
        Ini ini = r.ini;
        auto it = out2.begin();
        std::advance(it, c.i(0, static_cast<int>(out2.size()) - 2));
        ini.set("Problem", "restart", "true");
        ini.set("Problem", "restart_file", d2 + "/" + it->first);
        std::string const d3 = scratch_dir("o11c");
        Machine const m3 = random_machine(c, r, 4);
        RunResult const z = run_program(ini, d3, m3);
        start.same("the restarted run");
        released(z, "the restarted run");
        if (z.success()) {
            complete(z, "the restarted run");
            c.label("restarted");
        }
    }
    c.nontrivial(iterations(out2) > iterations(out1) + (more / 2));
    c.label(pbt::cat(m.n, " ranks"));
}

// runs that are refused or fail
PBT_TEST(errors, 1)
{
    warm_up();
    RunCase r = random_run(c);
    r.ini.set("Run", "t_end", r.t_ini + (5 * r.dt_est));
    r.ini.set("Output", "iter_frequency", 1);
    r.ini.set("Output", "max_iter", 3);
    Machine const m = random_machine(c, r, 3);
    Before const start;
    int const kind = c.i(0, 5);
    Ini ini = r.ini;
    std::string const d1 = scratch_dir("o11d");
    std::string file;
    if (kind <= 3) {
        RunResult const x = run_program(r.ini, d1, m);
        c.discard_if(!x.success());
        auto const out = outputs(d1);
        c.discard_if(out.size() < 2);
        file = d1 + "/" + out.begin()->first;
        ini.set("Problem", "restart", "true");
        ini.set("Problem", "restart_file", file);
    }
    std::string what;
    if (kind == 0) {
        // a truncated file
        auto const size = fs::file_size(file);
        fs::resize_file(file, static_cast<std::uintmax_t>(static_cast<double>(size) * c.d(0., 0.99)));
        what = "a restart from a truncated file";
    } else if (kind == 1) {
        // a missing dataset
        static std::vector<std::string> const names {"rho", "P", "ux0", "x0", "x1", "x2", "iter", "output_id", "current_time", "time_output_id", "iter_output_id"};
        std::string const gone = c.pick(names);
        hid_t const f = H5Fopen(file.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
        H5Ldelete(f, gone.c_str(), H5P_DEFAULT);
        H5Fclose(f);
        what = "a restart from a file without " + gone;
    } else if (kind == 2) {
        // another mesh
        int const d = c.i(0, ndim - 1);
        ini.set("Grid", "Nx" + std::to_string(d) + "_glob", r.nx[d] + c.i(1, 4));
        what = "a restart with another mesh";
    } else if (kind == 3) {
        ini.set("Passive Scalar", "nfx", r.nfx + c.i(1, 2));
        what = "a restart with other scalars";
    } else if (kind == 4) {
        auto const [s, k] = c.pick(std::vector<std::pair<std::string, std::string>> {{"Hydro", "riemann_solver"}, {"Hydro", "reconstruction"}, {"Grid", "type"}, {"User step", "user_step"}, {"Boundary Condition", "BC_X0_left"}});
        ini.set(s, k, "Nothing");
        what = "an unknown " + k;
    } else {
        ini.set("Initialisation", "P0", -1);
        what = "an invalid state";
    }
    c.note("%s | %s | %s", ini.show().c_str(), show(m).c_str(), what.c_str());
    std::string const d2 = scratch_dir("o11e");
    RunResult const y = run_program(ini, d2, m);
    start.same(what);
    released(y, what);
    c.nontrivial(!y.success());
    c.label(what.substr(0, what.find(" without")));
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
