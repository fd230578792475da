// O08: restart files that do not fit the run.
#include <files.hpp>
#include <runs.hpp>

using namespace hz;

namespace {

// the file as a map, written back with changes
void h5_write(std::string const& path, H5File const& f)
{
    hid_t const id = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    for (auto const& [n, x] : f.d) {
        std::vector<hsize_t> dims(x.dims.begin(), x.dims.end());
        hid_t const sp = dims.empty() ? H5Screate(H5S_SCALAR) : H5Screate_simple(static_cast<int>(dims.size()), dims.data(), nullptr);
        bool const integer = n == "iter" || n == "output_id" || n == "iter_output_id" || n == "time_output_id";
        hid_t const ds = H5Dcreate2(id, n.c_str(), integer ? H5T_NATIVE_INT : H5T_NATIVE_DOUBLE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x.v.data());
        H5Dclose(ds);
        H5Sclose(sp);
    }
    H5Fclose(id);
}

void refused(pbt::Case& c, Ini ini, std::string const& file, Machine const& m, std::string const& what)
{
    std::string const dir = scratch_dir("o08b");
    ini.set("Problem", "restart", "true");
    ini.set("Problem", "restart_file", file);
    RunResult const y = run_program(ini, dir, m);
    c.nontrivial();
    REQUIRE(!y.success(), "a restart goes on with ", what, " (", show(m), ")");
    REQUIRE(y.refused(), "a restart with ", what, " does not end with an error on every process: ", y.describe());
    for (auto const& e : y.err) {
        REQUIRE(!e.empty(), "a restart with ", what, " ends without an error message");
    }
    REQUIRE(outputs(dir).empty(), "a restart with ", what, " writes an output");
}

} // namespace

PBT_TEST(mismatch, 1)
{
    RunOpt o;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 2.) * r.dt_est));
    r.ini.set("Output", "iter_frequency", 1);
    r.ini.set("Output", "max_iter", 3);
    // run on, so that a restart that is accepted has something to do
    Ini longer = r.ini;
    longer.set("Run", "t_end", r.t_ini + (5 * r.dt_est));
    longer.set("Output", "max_iter", 6);
    std::string const dir = scratch_dir("o08a");
    RunResult const x = run_program(r.ini, dir, random_machine(c, r, 3));
    c.discard_if(!x.success());
    auto const out = outputs(dir);
    c.discard_if(out.size() < 2);
    std::string const good = dir + "/" + out.begin()->first;
    H5File h = out.begin()->second;
    std::string const bad = dir + "/bad.h5";
    RunCase q = r;
    q.ini = longer;
    int const kind = c.i(0, 10);
    std::string what;
    std::string file = bad;
    switch (kind) {
    case 0: {
        int const how = c.i(0, 4);
        if (how == 0) {
            file = dir + "/absent.h5";
            what = "a missing file";
        } else if (how == 1) {
            file = "";
            what = "no file name";
        } else if (how == 2) {
            file = dir;
            what = "a directory";
        } else {
            std::ofstream f(bad, std::ios::binary);
            f << (how == 3 ? "" : "[Problem]\nnot an HDF5 file\n");
            what = how == 3 ? "an empty file" : "a text file";
        }
        break;
    }
    case 1: {
        // truncated
        auto const size = static_cast<pbt::u64>(fs::file_size(good));
        fs::copy_file(good, bad);
        pbt::u64 const cut = c.b() ? c.below(size) : size - 1 - c.below(std::min<pbt::u64>(size, 64));
        fs::resize_file(bad, cut);
        what = pbt::cat("a file of ", size, " bytes cut after ", cut);
        break;
    }
    case 2: {
        // another number of cells
        int const d = c.i(0, ndim - 1);
        std::vector<int> sizes;
        for (int n = r.ng; n <= r.nx[d] + 6; ++n) {
            if (n != r.nx[d]) {
                sizes.push_back(n);
            }
        }
        q.nx[d] = c.pick(sizes);
        q.ini.set("Grid", "Nx" + std::to_string(d) + "_glob", q.nx[d]);
        file = good;
        what = pbt::cat(r.nx[d], " cells in direction ", d, " for a run with ", q.nx[d]);
        break;
    }
    case 3: {
        // another number of ghost layers
        q.ng = r.ng == 2 ? 3 : 2;
        q.ini.set("Grid", "Nghost", q.ng);
        for (int d = 0; d < ndim; ++d) {
            c.discard_if(q.nx[d] < q.ng);
        }
        file = good;
        what = pbt::cat(r.ng, " ghost layers for a run with ", q.ng);
        break;
    }
    case 4: {
        // another number of cells and of ghost layers, the same coordinate arrays
        q.ng = r.ng == 2 ? 3 : 2;
        q.ini.set("Grid", "Nghost", q.ng);
        for (int d = 0; d < ndim; ++d) {
            q.nx[d] = r.nx[d] + (2 * (r.ng - q.ng));
            c.discard_if(q.nx[d] < q.ng);
            q.ini.set("Grid", "Nx" + std::to_string(d) + "_glob", q.nx[d]);
        }
        file = good;
        what = pbt::cat(r.nx[0], " cells and ", r.ng, " ghost layers for a run with ", q.nx[0], " and ", q.ng);
        break;
    }
    case 5: {
        // more scalars than the file holds
        q.nfx = r.nfx + c.i(1, 3);
        q.ini.set("Passive Scalar", "nfx", q.nfx);
        file = good;
        what = pbt::cat(r.nfx, " scalars for a run with ", q.nfx);
        break;
    }
    case 6: {
        // a dataset is missing
        std::vector<std::string> need {"rho", "P", "x0", "x1", "x2", "iter", "output_id", "iter_output_id", "time_output_id", "current_time"};
        for (int d = 0; d < ndim; ++d) {
            need.push_back("ux" + std::to_string(d));
        }
        for (int n = 0; n < r.nfx; ++n) {
            need.push_back("fx" + std::to_string(n));
        }
        std::string const n = c.pick(need);
        h.d.erase(n);
        h5_write(bad, h);
        what = "no " + n;
        break;
    }
    case 7:
    case 8: {
        // a field of other extents: larger, smaller, transposed or of another rank
        std::vector<std::string> need {"rho", "P"};
        for (int d = 0; d < ndim; ++d) {
            need.push_back("ux" + std::to_string(d));
        }
        for (int n = 0; n < r.nfx; ++n) {
            need.push_back("fx" + std::to_string(n));
        }
        std::string const n = c.pick(need);
        auto& x = h.d.at(n);
        int const how = c.i(0, 2);
        auto const before = x.dims;
        if (how == 0) {
            int const d = c.i(0, 2);
            x.dims[d] = std::max(1L, x.dims[d] + c.pick({-1, 1, 2}));
        } else if (how == 1) {
            std::swap(x.dims[0], x.dims[2]);
        } else if (c.b()) {
            x.dims.push_back(1);
        } else {
            x.dims = {x.dims[0] * x.dims[1] * x.dims[2]};
        }
        c.discard_if(x.dims == before);
        long total = 1;
        for (long const e : x.dims) {
            total *= e;
        }
        x.v.resize(total, 1.);
        h5_write(bad, h);
        what = n + " of other extents";
        break;
    }
    case 9: {
        // coordinates of other extents
        std::string const n = "x" + std::to_string(c.i(0, 2));
        auto& x = h.d.at(n);
        x.dims[0] = std::max(1L, x.dims[0] + c.pick({-1, 1, 3}));
        x.v.resize(x.dims[0], 99.);
        h5_write(bad, h);
        what = n + " of another extent";
        break;
    }
    default: {
        // a file of another dimension: a direction is collapsed
        int const d = c.i(0, ndim - 1);
        auto& x = h.d.at("x" + std::to_string(d));
        x.dims[0] = 2;
        x.v.resize(2);
        for (auto& [n, y] : h.d) {
            if (y.dims.size() == 3) {
                y.dims[2 - d] = 1;
                y.v.resize(y.dims[0] * y.dims[1] * y.dims[2]);
            }
        }
        h5_write(bad, h);
        what = pbt::cat("a file without direction ", d);
        break;
    }
    }
    Machine const m = random_machine(c, q, 4);
    c.note("%s | %s | %s", q.ini.show().c_str(), show(m).c_str(), what.c_str());
    c.label(pbt::cat("kind ", kind));
    refused(c, q.ini, file, m, what);
}

// the same machinery accepts the file that fits, rewritten or not
PBT_TEST(control, 0.15)
{
    RunCase r = random_run(c, {});
    r.ini.set("Run", "t_end", r.t_ini + (c.d(2., 5.) * r.dt_est));
    r.ini.set("Output", "iter_frequency", 1);
    r.ini.set("Output", "max_iter", 6);
    std::string const dir = scratch_dir("o08a");
    RunResult const x = run_program(r.ini, dir, random_machine(c, r, 3));
    c.discard_if(!x.success());
    auto const out = outputs(dir);
    c.discard_if(out.size() < 2);
    std::string file = dir + "/" + out.begin()->first;
    if (c.b()) {
        h5_write(dir + "/copy.h5", out.begin()->second);
        file = dir + "/copy.h5";
    }
    Ini ini = r.ini;
    ini.set("Problem", "restart", "true");
    ini.set("Problem", "restart_file", file);
    c.note("%s", ini.show().c_str());
    RunResult const y = run_program(ini, scratch_dir("o08b"), random_machine(c, r, 4));
    REQUIRE(y.success(), "a restart file that fits the run is refused: ", y.describe());
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
