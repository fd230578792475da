// Global arrays (ghosts included) and their slices on a process; ghost filling as a pure index model.
#pragma once

#include <string>
#include <vector>

#include <boundary.hpp>
#include <boundary_distribute.hpp>
#include <boundary_factory.hpp>
#include <gravity.hpp>
#include <inih/INIReader.hpp>
#include <mesh.hpp>
#include <param.hpp>

namespace hz {

struct Global
{
    std::array<int, 3> n {1, 1, 1}; // extents, ghosts included
    std::vector<double> v;
    Global() = default;
    explicit Global(Mesh const& m)
    {
        for (int d = 0; d < 3; ++d) {
            n[d] = m.nx[d] + (2 * m.ngh[d]);
        }
        v.assign(static_cast<std::size_t>(n[0]) * n[1] * n[2], 0.);
    }
    double& operator()(int i, int j, int k) { return v[i + (static_cast<std::size_t>(n[0]) * (j + (static_cast<std::size_t>(n[1]) * k)))]; }
    double operator()(int i, int j, int k) const { return v[i + (static_cast<std::size_t>(n[0]) * (j + (static_cast<std::size_t>(n[1]) * k)))]; }
};
template <class F>
void for_each(Global const& g, F f)
{
    for (int k = 0; k < g.n[2]; ++k) {
        for (int j = 0; j < g.n[1]; ++j) {
            for (int i = 0; i < g.n[0]; ++i) {
                f(i, j, k);
            }
        }
    }
}

enum class Bc { Null, Reflexive, Periodic };
inline char const* bc_name(Bc b)
{
    return b == Bc::Null ? "NullGradient" : b == Bc::Reflexive ? "Reflexive" : "Periodic";
}

// one conserved state of the whole domain: rho, rhou, E, fx
struct World
{
    Global rho, E;
    std::vector<Global> rhou, fx;
    World() = default;
    World(Mesh const& m, int nfx) : rho(m), E(m), rhou(ndim, Global(m)), fx(nfx, Global(m)) {}
    std::vector<Global*> all()
    {
        std::vector<Global*> r {&rho};
        for (auto& g : rhou) {
            r.push_back(&g);
        }
        r.push_back(&E);
        for (auto& g : fx) {
            r.push_back(&g);
        }
        return r;
    }
};

// where the value of index i of direction d comes from, and the sign of the normal momentum
struct Source
{
    int i;
    double sign;
};
inline Source ghost_source(int i, int ng, int nx, Bc left, Bc right)
{
    if (i < ng) {
        switch (left) {
        case Bc::Null:
            return {ng, 1};
        case Bc::Reflexive:
            return {(2 * ng) - 1 - i, -1};
        case Bc::Periodic:
            return {i + nx, 1};
        }
    }
    if (i >= ng + nx) {
        switch (right) {
        case Bc::Null:
            return {ng + nx - 1, 1};
        case Bc::Reflexive:
            return {(2 * (ng + nx)) - 1 - i, -1};
        case Bc::Periodic:
            return {i - nx, 1};
        }
    }
    return {i, 1};
}
// ghosts from the interior by the rule of each face; the rules of different directions commute
inline void fill_ghosts(World& w, Mesh const& m, std::array<std::array<Bc, 2>, 3> const& bc)
{
    int const nf = static_cast<int>(w.all().size());
    World const old = w;
    World tmp = w;
    auto const src = tmp.all();
    auto const dst = w.all();
    for_each(w.rho, [&](int i, int j, int k) {
        std::array<int, 3> const p {i, j, k};
        std::array<int, 3> q {};
        std::array<double, 3> s {1, 1, 1};
        for (int d = 0; d < 3; ++d) {
            Source const r = ghost_source(p[d], m.ngh[d], m.nx[d], bc[d][0], bc[d][1]);
            q[d] = r.i;
            s[d] = r.sign;
        }
        for (int f = 0; f < nf; ++f) {
            double const sg = f >= 1 && f <= ndim ? s[f - 1] : 1;
            (*dst[f])(i, j, k) = sg * (*src[f])(q[0], q[1], q[2]);
        }
    });
}

// the arrays of one process
struct Local
{
    KV_double_3d rho, E;
    KV_double_4d rhou, fx;
    Local() = default;
    Local(Grid const& g, int nfx)
        : rho("rho", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2])
        , E("E", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2])
        , rhou("rhou", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], ndim)
        , fx("fx", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], nfx)
    {
    }
    double& at(int f, int i, int j, int k) const
    {
        if (f == 0) {
            return rho(i, j, k);
        }
        if (f <= ndim) {
            return rhou(i, j, k, f - 1);
        }
        if (f == ndim + 1) {
            return E(i, j, k);
        }
        return fx(i, j, k, f - ndim - 2);
    }
    int nf() const { return ndim + 2 + fx.extent_int(3); }
    template <class F>
    void each(F fn) const
    {
        for (int k = 0; k < rho.extent_int(2); ++k) {
            for (int j = 0; j < rho.extent_int(1); ++j) {
                for (int i = 0; i < rho.extent_int(0); ++i) {
                    fn(i, j, k);
                }
            }
        }
    }
};
inline bool interior(Grid const& g, int i, int j, int k)
{
    std::array<int, 3> const p {i, j, k};
    for (int d = 0; d < 3; ++d) {
        if (p[d] < g.Nghost[d] || p[d] >= g.Nghost[d] + g.Nx_local_ng[d]) {
            return false;
        }
    }
    return true;
}
inline char const* field_name(int f)
{
    return f == 0 ? "density" : f <= ndim ? "momentum" : f == ndim + 1 ? "energy" : "scalar";
}

inline hclpp::Param make_param(std::string const& text)
{
    INIReader const r(write_text("input.ini", text));
    return hclpp::Param(r);
}

using hclpp::UniformGravity;
using BcPtr = std::unique_ptr<hclpp::IBoundaryCondition<UniformGravity>>;
inline UniformGravity no_gravity()
{
    return hclpp::make_uniform_gravity(0, 0, 0);
}
inline std::array<BcPtr, hclpp::nfaces> make_bcs(std::array<std::array<Bc, 2>, 3> const& bc)
{
    std::array<BcPtr, hclpp::nfaces> r;
    for (int f = 0; f < hclpp::nfaces; ++f) {
        r[f] = hclpp::factory_boundary_construction<UniformGravity>(bc_name(bc[f / 2][f % 2]), f / 2, f % 2);
    }
    return r;
}

inline std::array<std::array<Bc, 2>, 3> random_bcs(pbt::Case& c, int periodic_weight = 1)
{
    std::array<std::array<Bc, 2>, 3> bc {};
    for (auto& b : bc) {
        if (c.chance(periodic_weight, periodic_weight + 2)) {
            b = {Bc::Periodic, Bc::Periodic};
        } else {
            b[0] = c.pick({Bc::Null, Bc::Reflexive});
            b[1] = c.pick({Bc::Null, Bc::Reflexive});
        }
    }
    return bc;
}
inline std::string show(std::array<std::array<Bc, 2>, 3> const& bc)
{
    std::string s;
    for (int d = 0; d < ndim; ++d) {
        s += pbt::cat(d ? " " : "", bc_name(bc[d][0]), "/", bc_name(bc[d][1]));
    }
    return s;
}
// a random factorisation of n in the first ndim directions
inline std::array<int, 3> random_dims(pbt::Case& c, int n)
{
    std::array<int, 3> d {1, 1, 1};
    int rest = n;
    for (int p = 2; p <= rest;) {
        if (rest % p == 0) {
            d[c.i(0, ndim - 1)] *= p;
            rest /= p;
        } else {
            ++p;
        }
    }
    return d;
}

} // namespace hz
