// Random meshes on top of harness.hpp
#pragma once

#include <array>
#include <numbers>
#include <vector>

#include <geom.hpp>
#include <grid.hpp>
#include <harness.hpp>
#include <range.hpp>

namespace hz {

using hclpp::Grid;
using hclpp::KDV_double_1d;
using hclpp::KV_cdouble_1d;
using hclpp::KV_double_1d;
using hclpp::KV_double_3d;
using hclpp::KV_double_4d;
using hclpp::KV_double_5d;
using hclpp::KV_double_6d;

inline constexpr bool spherical = hclpp::geom == hclpp::Geometry::Geom_spherical;

// A global mesh: the face coordinates of every direction, ghosts included
struct Mesh
{
    int ng = 2;
    std::array<int, 3> nx {1, 1, 1};
    std::array<int, 3> ngh {0, 0, 0};
    std::array<std::vector<double>, 3> x;
};

struct MeshOpt
{
    int max_n = 8;
    int min_n = 1;
    int ng_min = 2, ng_max = 3;
    bool fill = false; // at least ng cells in every direction (periodic and reflecting boundaries need them)
    bool uniform = false; // only uniform meshes
    std::array<int, 3> parts {1, 1, 1}; // every part must hold at least ng cells when there are several parts
    bool safe_poles = true; // keep theta (ghosts included) inside (0, pi)
    bool positive_r = true; // radii of ghosts > 0
};

inline Mesh random_mesh(pbt::Case& c, MeshOpt const& o)
{
    Mesh m;
    m.ng = c.i(o.ng_min, o.ng_max);
    for (int d = 0; d < 3; ++d) {
        bool const active = d < ndim;
        m.ngh[d] = active ? m.ng : 0;
        int lo = o.min_n;
        int hi = o.max_n;
        if (active) {
            lo = std::max(lo, o.parts[d] > 1 || o.fill ? o.parts[d] * m.ng : 1);
            hi = std::max(hi, lo + 3);
        }
        m.nx[d] = active ? c.i(lo, hi) : 1;
        int const nf = m.nx[d] + (2 * m.ngh[d]) + 1;
        std::vector<double> w(nf - 1, 1.0);
        // 0 uniform, 1 geometric, 2 random widths
        int const kind = o.uniform || !active ? 0 : c.i(0, 2);
        if (kind == 1) {
            double const r = c.d(1.0, 1.3);
            for (int k = 1; k < nf - 1; ++k) {
                w[k] = w[k - 1] * r;
            }
        } else if (kind == 2) {
            for (double& q : w) {
                q = c.d(0.5, 2.0);
            }
        }
        double total = 0;
        for (double const q : w) {
            total += q;
        }
        double x0 = 0;
        double len = 1;
        if (!spherical) {
            len = c.logd(0.1, 10.);
            x0 = c.sym(3.) - (0.3 * len);
        } else if (d == 0) {
            len = c.logd(0.1, 10.);
            x0 = o.positive_r ? c.logd(0.05, 5.) : 0;
        } else if (d == 1) {
            x0 = c.d(0.15, 1.3);
            len = c.d(0.2, std::numbers::pi - 0.15 - x0);
        } else {
            x0 = c.d(0., 3.);
            len = c.d(0.2, 3.);
        }
        m.x[d].resize(nf);
        m.x[d][0] = x0;
        double acc = 0;
        for (int k = 1; k < nf; ++k) {
            acc += w[k - 1];
            m.x[d][k] = x0 + (len * acc / total);
        }
    }
    return m;
}

inline KV_double_1d to_view(std::vector<double> const& v)
{
    KV_double_1d r("x", v.size());
    for (std::size_t k = 0; k < v.size(); ++k) {
        r(k) = v[k];
    }
    return r;
}

inline void set_grid(Grid& g, Mesh const& m)
{
    g.set_grid(to_view(m.x[0]), to_view(m.x[1]), to_view(m.x[2]));
}
inline std::unique_ptr<Grid> make_grid(Mesh const& m, std::array<int, 3> dims = {0, 0, 0})
{
    auto g = std::make_unique<Grid>(m.nx, dims, m.ng);
    set_grid(*g, m);
    return g;
}

inline std::string show(Mesh const& m)
{
    return pbt::cat("ng=", m.ng, " n=", m.nx[0], "x", m.nx[1], "x", m.nx[2], " x0=[", m.x[0].front(), "..", m.x[0].back(), "]");
}

// exact geometric measures of a cell (the ones of the finite volume method)
inline double cell_volume(Mesh const& m, int i, int j, int k)
{
    auto const& r = m.x[0];
    auto const& th = m.x[1];
    auto const& ph = m.x[2];
    if (!spherical) {
        return (r[i + 1] - r[i]) * (th[j + 1] - th[j]) * (ph[k + 1] - ph[k]);
    }
    double const rr = r[i + 1] - r[i];
    double const r3 = rr * ((r[i + 1] * r[i + 1]) + (r[i + 1] * r[i]) + (r[i] * r[i])) / 3;
    if (ndim == 1) {
        return 4 * std::numbers::pi * r3;
    }
    double const dc = 2 * std::sin((th[j + 1] + th[j]) / 2) * std::sin((th[j + 1] - th[j]) / 2);
    if (ndim == 2) {
        return 2 * std::numbers::pi * r3 * dc;
    }
    return r3 * dc * (ph[k + 1] - ph[k]);
}
// area of the lower face of cell (i,j,k) in direction d
inline double face_area(Mesh const& m, int d, int i, int j, int k)
{
    auto const& r = m.x[0];
    auto const& th = m.x[1];
    auto const& ph = m.x[2];
    if (!spherical) {
        double a = 1;
        if (d != 0) {
            a *= r[i + 1] - r[i];
        }
        if (d != 1) {
            a *= th[j + 1] - th[j];
        }
        if (d != 2) {
            a *= ph[k + 1] - ph[k];
        }
        return a;
    }
    double const dphi = ndim == 3 ? ph[k + 1] - ph[k] : 2 * std::numbers::pi;
    if (d == 0) {
        if (ndim == 1) {
            return 4 * std::numbers::pi * r[i] * r[i];
        }
        double const dc = 2 * std::sin((th[j + 1] + th[j]) / 2) * std::sin((th[j + 1] - th[j]) / 2);
        return r[i] * r[i] * dc * dphi;
    }
    if (d == 1) {
        return (r[i + 1] - r[i]) * (r[i + 1] + r[i]) / 2 * std::sin(th[j]) * dphi;
    }
    return (r[i + 1] - r[i]) * (r[i + 1] + r[i]) / 2 * (th[j + 1] - th[j]);
}

} // namespace hz
