// Helpers of the demonstrations.
#pragma once
#include <mpi.h>
#include <hdf5.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <Kokkos_Core.hpp>

auto heraclespp_main(int argc, char** argv) -> int;

namespace kit {
namespace fs = std::filesystem;
inline int failures = 0;
inline void check(bool ok, std::string const& what)
{
    if (!ok) {
        ++failures;
        std::fprintf(stderr, "FAILED: %s\n", what.c_str());
    }
}
inline bool close(double a, double b, double rel, double abs = 0) { return std::abs(a - b) <= rel * std::max(std::abs(a), std::abs(b)) + abs; }
inline std::string scratch(std::string const& name)
{
    std::string const base = std::string(std::getenv("DEMO_SCRATCH") ? std::getenv("DEMO_SCRATCH") : "/tmp") + "/" + name;
    fs::remove_all(base);
    fs::create_directories(base);
    return base;
}
// runs fn on n ranks (threads); true when every rank returns
inline bool ranks(int n, std::function<void(int)> const& fn) { return vmpi::run(n, fn).ok(); }
#ifdef KIT_PROGRAM
// runs the program; exit status 0 on every rank
inline bool program(std::string const& ini, std::string const& dir, int n = 1)
{
    std::string const path = dir + "/input.ini";
    std::ofstream(path) << ini << "\n[Output]\ndirectory = " << dir << "\n";
    return ranks(n, [&](int) {
        std::string a0 = "heracles";
        std::string a1 = path;
        char* argv[] = {a0.data(), a1.data(), nullptr};
        if (heraclespp_main(2, argv) != 0) {
            throw std::runtime_error("failed");
        }
    });
}
inline std::map<std::string, std::vector<double>> read(std::string const& path)
{
    std::map<std::string, std::vector<double>> out;
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t const f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) {
        return out;
    }
    H5G_info_t info;
    H5Gget_info(f, &info);
    for (hsize_t k = 0; k < info.nlinks; ++k) {
        char name[256];
        H5Lget_name_by_idx(f, ".", H5_INDEX_NAME, H5_ITER_INC, k, name, sizeof name, H5P_DEFAULT);
        hid_t const ds = H5Dopen2(f, name, H5P_DEFAULT);
        hid_t const sp = H5Dget_space(ds);
        std::vector<double> v(H5Sget_simple_extent_npoints(sp));
        H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
        H5Sclose(sp);
        H5Dclose(ds);
        out[name] = v;
    }
    H5Fclose(f);
    return out;
}
inline std::string output(std::string const& dir, int id)
{
    char b[64];
    std::snprintf(b, sizeof b, "/result_%08d.h5", id);
    return dir + b;
}
inline double distance(std::vector<double> const& a, std::vector<double> const& b)
{
    if (a.size() != b.size() || a.empty()) {
        return INFINITY;
    }
    double d = 0;
    for (std::size_t k = 0; k < a.size(); ++k) {
        d = std::max(d, std::isnan(a[k] - b[k]) ? INFINITY : std::abs(a[k] - b[k]));
    }
    return d;
}
#endif
inline int result()
{
    if (failures == 0) {
        std::puts("ok");
    }
    return failures == 0 ? 0 : 1;
}
} // namespace kit
