// Writing and reading output files through the library, and arbitrary double bit patterns.
#pragma once

#include <bit>

#include <config.yaml.hpp>
#include <io.hpp>
#include <paraconf.h>
#include <pdi.h>
#include <run.hpp>
#include <world.hpp>

namespace hz {

using hclpp::KDV_double_3d;
using hclpp::KDV_double_4d;

// any double, often a special one
inline double any_double(pbt::Case& c)
{
    int const k = c.i(0, 5);
    if (k == 0) {
        return c.sym(10.);
    }
    if (k == 1) {
        return std::bit_cast<double>((c.below(1ULL << 32) << 32) | c.below(1ULL << 32));
    }
    return c.pick({0., -0., 1., 5e-324, 1e-310, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 0.1, 1. / 3, 12345.678901234567});
}
// a value per cell without using a choice per cell
inline double cell_double(pbt::u64 salt, int f, int i, int j, int k)
{
    pbt::u64 const h = pbt::mix(pbt::mix((salt * 31) + f) + (i * 10007) + (j * 101) + (k * 1000003));
    switch (h % 11) {
    case 0:
        return std::bit_cast<double>(pbt::mix(h));
    case 1:
        return 0;
    case 2:
        return -0.;
    default:
        return std::ldexp((static_cast<double>(h >> 11) / 9007199254740992.) - 0.5, static_cast<int>((h >> 4) % 60) - 30);
    }
}
inline bool same_bits(double a, double b)
{
    return std::bit_cast<pbt::u64>(a) == std::bit_cast<pbt::u64>(b);
}

// the fields of an output on one process
struct Fields
{
    KDV_double_3d rho, P, E, T;
    KDV_double_4d u, fx;
    KDV_double_1d x0, x1, x2;
    Fields(Grid const& g, int nfx)
        : rho("rho", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2])
        , P("P", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2])
        , E("E", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2])
        , T("T", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2])
        , u("u", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], ndim)
        , fx("fx", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], nfx)
        , x0("x0_glob", g.Nx_glob_ng[0] + (2 * g.Nghost[0]) + 1)
        , x1("x1_glob", g.Nx_glob_ng[1] + (2 * g.Nghost[1]) + 1)
        , x2("x2_glob", g.Nx_glob_ng[2] + (2 * g.Nghost[2]) + 1)
    {
    }
    int nf() const { return 4 + ndim + fx(hclpp::host).extent_int(3); }
    double& at(int f, int i, int j, int k) const
    {
        if (f < 4) {
            return (f == 0 ? rho : f == 1 ? P : f == 2 ? E : T)(hclpp::host)(i, j, k);
        }
        if (f < 4 + ndim) {
            return u(hclpp::host)(i, j, k, f - 4);
        }
        return fx(hclpp::host)(i, j, k, f - 4 - ndim);
    }
    static std::string name(int f)
    {
        return f == 0 ? "rho" : f == 1 ? "P" : f == 2 ? "E" : f == 3 ? "T" : f < 4 + ndim ? "ux" + std::to_string(f - 4) : "fx" + std::to_string(f - 4 - ndim);
    }
};

} // namespace hz
