// I01: the initial state of every shipped problem is the documented one, at every point of the global mesh, whatever
// the resolution, the number of ghost layers and the decomposition; so are its user-defined mesh, boundaries and criterion.
// Compiled once per problem (SETUP_<name>) against src/setups/<name>/setup.hpp.
#include <runs.hpp>
#include <states.hpp>
#include <world.hpp>

#include "setup.hpp"

using namespace hz;

namespace {

struct Cell
{
    std::array<double, 3> c, lo, hi;
    std::array<int, 3> g; // global index
    double dv;
};
struct State
{
    double rho = 0;
    std::array<double, 3> u {0, 0, 0};
    double P = 0;
    std::vector<double> fx;
    double tol = 1e-11;
    double uscale = 0;
};
// what a cell may contain: one state, several (a cell on a threshold), or anything (empty)
using Wanted = std::vector<State>;

struct Setup
{
    Ini ini;
    std::array<int, 3> nx {1, 1, 1};
    int ng = 2;
    double gamma = 5. / 3;
    double mu = 1;
    int nfx = 0;
    Mesh mesh;
    std::function<Wanted(Cell const&)> at;
    std::function<void(H5File const&)> also; // further checks on the whole output
    bool omit = false; // leave out the parameters that have their default value
    void param(char const* k, double v, double def = 1)
    {
        if (!omit || v != def) {
            ini.set("Initialisation", k, v);
        }
    }
};

void box(Setup& s, int d, double lo, double hi)
{

    s.ini.set("Grid", "x" + std::to_string(d) + "min", lo);
    s.ini.set("Grid", "x" + std::to_string(d) + "max", hi);
    auto& x = s.mesh.x[d];
    int const g = d < ndim ? s.ng : 0;
    x.clear();
    for (int k = -g; k <= s.nx[d] + g; ++k) {
        x.push_back(lo + ((hi - lo) * k / s.nx[d]));
    }
}
// some box that covers a good part of [a, b]
void around(pbt::Case& c, Setup& s, int d, double a, double b)
{
    double const l = b - a;
    if (c.chance(1, 3)) {
        box(s, d, a, b);
        return;
    }
    double const lo = a + (l * c.d(-0.5, 0.4));
    box(s, d, lo, lo + (l * c.d(0.3, 1.5)));
}
// a spherical box; the radius covers a good part of [a, b] and stays positive, ghosts included
void ball(pbt::Case& c, Setup& s, double a, double b)
{
    double lo = a + ((b - a) * c.d(-0.2, 0.4));
    double const hi = lo + ((b - a) * c.d(0.4, 1.3));
    double const least = (hi - lo) * s.ng / s.nx[0] * 1.1;
    if (lo < least) {
        lo = least;
    }
    box(s, 0, lo, std::max(hi, lo * 1.2));
    if (lo - ((std::max(hi, lo * 1.2) - lo) * s.ng / s.nx[0]) <= 0) {
        throw pbt::Discard();
    }
    if (ndim >= 2) {
        double const len = std::min(c.d(0.2, 0.2 * s.nx[1] / s.ng), 1.);
        double const mn = c.d(0.5, 1.5);
        box(s, 1, mn, mn + len);
    }
    if (ndim >= 3) {
        double const mn = c.d(0., 3.);
        box(s, 2, mn, mn + c.d(0.3, 1.5));
    }
}
bool near(double a, double b, double scale)
{
    return std::abs(a - b) <= 1e-12 * scale;
}
double positive(pbt::Case& c)
{
    return c.chance(1, 2) ? c.pick({1., 1., 2., 0.5, 0.125, 10.}) : c.logd(1e-3, 1e3);
}
double speed(pbt::Case& c)
{
    return c.chance(1, 2) ? c.pick({0., 1., 1., -1., 5.}) : c.sym(3.);
}
State uniform(double rho, double u, double P)
{
    return {rho, {u, u, u}, P, {}, 1e-11, std::abs(u)};
}

// ---------------------------------------------------------------------------------------------- problems

#if defined(SETUP_advection_gap)
void problem(pbt::Case& c, Setup& s)
{
    around(c, s, 0, 0., 1.);
    for (int d = 1; d < ndim; ++d) {
        around(c, s, d, 0., 1.);
    }
    double const r0 = positive(c);
    double const r1 = positive(c);
    double const u = speed(c);
    double const P = positive(c);
    s.param("rho0", r0);
    s.param("rho1", r1);
    s.param("u0", u);
    s.param("P0", P);
    s.at = [=](Cell const& q) -> Wanted {
        double const x = q.c[0];
        if (near(x, 0.3, 2) || near(x, 0.7, 2)) {
            return {uniform(r0, u, P), uniform(r1, u, P)};
        }
        return {uniform(x > 0.3 && x < 0.7 ? r1 : r0, u, P)};
    };
}
#elif defined(SETUP_advection_sinus)
void problem(pbt::Case& c, Setup& s)
{
    for (int d = 0; d < ndim; ++d) {
        around(c, s, d, 0., 1.);
    }
    double const u = speed(c);
    double const P = positive(c);
    s.param("u0", u);
    s.param("P0", P);
    s.at = [=](Cell const& q) -> Wanted { return {uniform(1 + (0.1 * std::sin(2 * std::numbers::pi * q.c[0])), u, P)}; };
}
#elif defined(SETUP_eq_hydro_sphe)
double scale_factor(RefEos const& e, double T, double M)
{
    return e.mu * hclpp::units::mp * hclpp::units::G * M / (hclpp::units::kb * T);
}
void problem(pbt::Case& c, Setup& s)
{
    double const size = c.logd(1., 1e6);
    ball(c, s, 0.1 * size, size);
    double const rho0 = positive(c);
    double const u = speed(c);
    double const T = c.chance(1, 4) ? 100. : c.logd(10., 1e4);
    RefEos const e {s.gamma, s.mu};
    double const M = c.d(0.1, 8.) * s.mesh.x[0][s.ng] / scale_factor(e, T, 1.);
    s.param("rho0", rho0);
    s.param("u0", u);
    s.param("T0", T, 100.);
    s.ini.set("Gravity", "M", M);
    s.at = [=](Cell const& q) -> Wanted {
        double const rho = rho0 * std::exp(scale_factor(e, T, M) / q.c[0]);
        return {uniform(rho, u, e.pressure(rho, T))};
    };
}
#elif defined(SETUP_stratified_atm)
void problem(pbt::Case& c, Setup& s)
{
    double const size = c.logd(1., 1e6);
    for (int d = 0; d < ndim; ++d) {
        around(c, s, d, 0., size);
    }
    double const rho0 = positive(c);
    double const u = speed(c);
    double const T = c.chance(1, 4) ? 1. : c.logd(10., 1e4);
    RefEos const e {s.gamma, s.mu};
    double const g = hclpp::units::kb * T / (e.mu * hclpp::units::mp * size) * c.d(0.1, 6.) * (c.b() ? 1 : -1);
    s.param("rho0", rho0);
    s.param("u0", u);
    s.param("T0", T);
    s.ini.set("Gravity", "gx0", g);
    if (c.b()) {
        s.ini.set("Gravity", "gx1", c.sym(std::abs(g)));
    }
    s.at = [=](Cell const& q) -> Wanted {
        double const rho = rho0 * std::exp(-q.c[0] * e.mu * hclpp::units::mp * std::abs(g) / (hclpp::units::kb * T));
        return {uniform(rho, u, e.pressure(rho, T))};
    };
}
#elif defined(SETUP_gresho_vortex)
void problem(pbt::Case& c, Setup& s)
{
    around(c, s, 0, -1., 1.);
    around(c, s, 1, -1., 1.);
    double const rho = positive(c);
    double const u0 = c.b() ? 0. : speed(c);
    double const Ma = c.chance(1, 5) ? 1. : c.logd(1e-5, 1.);
    double const gamma = s.gamma;
    s.param("rho0", rho);
    s.param("u0", u0);
    s.param("Ma", Ma);
    s.at = [=](Cell const& q) -> Wanted {
        double const r = std::hypot(q.c[0], q.c[1]);
        double const P0 = 1 / (gamma * Ma * Ma);
        auto const zone = [&](int z) {
            double const v = z == 0 ? 5 * r : z == 1 ? 2 - (5 * r) : 0;
            double const P = z == 0   ? P0 + (12.5 * r * r)
                             : z == 1 ? P0 + (12.5 * r * r) + 4 - (20 * r) + (4 * std::log(5 * r))
                                      : P0 - 2 + (4 * std::log(2.));
            State w {rho, {z == 2 ? u0 : r == 0 ? 0. : -v * q.c[1] / r, z == 2 ? u0 : r == 0 ? 0. : v * q.c[0] / r, 0}, P, {}, 1e-11, 1};
            return w;
        };
        if (near(r, 0.2, 3)) {
            return {zone(0), zone(1)};
        }
        if (near(r, 0.4, 3)) {
            return {zone(1), zone(2)};
        }
        return {zone(r < 0.2 ? 0 : r < 0.4 ? 1 : 2)};
    };
}
#elif defined(SETUP_heat_nickel)
void problem(pbt::Case& c, Setup& s)
{
    for (int d = 0; d < ndim; ++d) {
        around(c, s, d, 0., 1.);
    }
    s.nfx = 1;
    RefEos const e {s.gamma, s.mu};
    double const rho = positive(c);
    double const u = speed(c);
    double const T = c.chance(1, 4) ? 1. : c.logd(1e-3, 1e5);
    double const f = c.pick({1., 0., 0.25});
    s.param("rho0", rho);
    s.param("u0", u);
    s.param("T0", T);
    s.param("fx0", f);
    s.at = [=](Cell const&) -> Wanted {
        State w = uniform(rho, u, e.pressure(rho, T));
        w.fx = {f};
        return {w};
    };
}
#elif defined(SETUP_implosion_test)
void problem(pbt::Case& c, Setup& s)
{
    for (int d = 0; d < ndim; ++d) {
        around(c, s, d, 0., 0.3);
    }
    double const r0 = positive(c);
    double const r1 = positive(c);
    double const u = speed(c);
    double const P0 = positive(c);
    double const P1 = positive(c);
    s.param("rho0", r0);
    s.param("rho1", r1);
    s.param("u0", u);
    s.param("P0", P0);
    s.param("P1", P1);
    s.at = [=](Cell const& q) -> Wanted {
        double const x = q.c[0] + q.c[1];
        if (near(x, 0.15, 1)) {
            return {uniform(r0, u, P0), uniform(r1, u, P1)};
        }
        return {x > 0.15 ? uniform(r0, u, P0) : uniform(r1, u, P1)};
    };
}
#elif defined(SETUP_kelvin_helmholtz)
void problem(pbt::Case& c, Setup& s)
{
    around(c, s, 0, 0., 4.);
    around(c, s, 1, 0., 2.);
    double const P = positive(c);
    s.param("P0", P);
    s.at = [=](Cell const& q) -> Wanted {
        double const a = std::tanh((q.c[1] - 0.5) / 0.05) - std::tanh((q.c[1] - 1.5) / 0.05);
        auto const bump = [&](double y) { return std::exp(-(q.c[1] - y) * (q.c[1] - y) / 0.04); };
        return {State {1 + a, {a, 0.01 * std::sin(std::numbers::pi * q.c[0]) * (bump(0.5) + bump(1.5)), 0}, P, {}, 1e-11, 1}};
    };
}
#elif defined(SETUP_rayleigh_taylor)
void problem(pbt::Case& c, Setup& s)
{
    around(c, s, 0, -0.5, 0.5);
    around(c, s, 1, -1., 1.);
    s.nfx = 1;
    double const r0 = c.chance(1, 4) ? 1. : c.d(0.5, 3.);
    double const r1 = c.chance(1, 4) ? 1. : c.d(0.5, 3.);
    double const f0 = c.pick({1., 0.25, 0.});
    double const f1 = c.pick({0., 0.5, 1.});
    double const u = c.b() ? 0. : speed(c);
    double const top = std::max(std::abs(s.mesh.x[1].front()), std::abs(s.mesh.x[1].back()));
    double const g = c.sym(1.2 / (r0 * top));
    s.param("rho0", r0);
    s.param("rho1", r1);
    s.param("fx0", f0);
    s.param("fx1", f1);
    s.param("u", u);
    s.param("A", 0.01);
    s.ini.set("Gravity", "gx1", g);
    if (c.b()) {
        s.ini.set("Gravity", "gx0", c.sym(1.));
    }
    s.at = [=](Cell const& q) -> Wanted {
        double const h = 0.01 * std::cos(4 * std::numbers::pi * q.c[0]);
        double const up = (1 + std::tanh((q.c[1] - h) / 0.005)) / 2;
        State w = uniform(r1 + ((r0 - r1) * up), u, (10. / 7) + 0.25 - (r0 * std::abs(g) * q.c[1]));
        w.fx = {f1 + ((f0 - f1) * up)};
        w.tol = 1e-10;
        return {w};
    };
}
#elif defined(SETUP_rayleigh_taylor3d)
// random amplitudes, the same in the whole domain; the position of a cell is its lower corner or its centre
void problem(pbt::Case& c, Setup& s)
{
    around(c, s, 0, -5., 5.);
    around(c, s, 1, -5., 5.);
    around(c, s, 2, -10., 10.);
    s.nfx = 1;
    double const r0 = c.chance(1, 4) ? 1. : c.d(0.5, 4.);
    double const r1 = c.chance(1, 4) ? 1. : c.d(0.5, 4.);
    double const u = c.b() ? 0. : speed(c);
    double const g = (c.b() ? 1 : -1) * c.d(0.1, 4.);
    s.param("rho0", r0);
    s.param("rho1", r1);
    s.param("u0", u);
    s.ini.set("Gravity", "gx2", g);
    auto const nx = s.nx;
    Mesh const m = s.mesh;
    s.also = [=](H5File const& f) {
        auto const& rho = f.at("rho").v;
        auto const& P = f.at("P").v;
        auto const& fx = f.at("fx0").v;
        double const P0 = 2 * std::numbers::pi * (r0 + r1) * std::abs(g) * 10;
        auto const id = [&](int i, int j, int k) { return i + (nx[0] * (j + (nx[1] * k))); };
        // [lowest, highest] position of the interface in every column that has one
        struct Column
        {
            double x, y, lo, hi;
        };
        std::vector<Column> cols;
        for (int j = 0; j < nx[1]; ++j) {
            for (int i = 0; i < nx[0]; ++i) {
                int first = nx[2];
                for (int k = nx[2] - 1; k >= 0; --k) {
                    int const n = id(i, j, k);
                    REQUIRE(fx[n] == 0 || fx[n] == 1, "the scalar of cell ", i, ",", j, ",", k, " is ", fx[n]);
                    double const mine = fx[n] == 1 ? r0 : r1;
                    auto const at = [&](double z) { return mine * std::pow(1 - (0.4 * mine * std::abs(g) * z / P0), 1.5); };
                    double const z0 = m.x[2][k + m.ngh[2]];
                    double const z1 = m.x[2][k + m.ngh[2] + 1];
                    double const a = std::min(at(z0), at(z1));
                    double const b = std::max(at(z0), at(z1));
                    REQUIRE(rho[n] >= a * (1 - 1e-11) && rho[n] <= b * (1 + 1e-11), "density of cell ", i, ",", j, ",", k, " is ", rho[n], " outside [", a, ",", b, "]");
                    REQUIRE(pbt::close(P[n], P0 * std::pow(rho[n] / mine, 5. / 3), 1e-10), "pressure of cell ", i, ",", j, ",", k, " is ", P[n], " instead of ", P0 * std::pow(rho[n] / mine, 5. / 3));
                    for (int d = 0; d < 3; ++d) {
                        double const v = f.at("ux" + std::to_string(d)).v[n];
                        REQUIRE(pbt::close(v, u, 1e-11), "velocity ", d, " of cell ", i, ",", j, ",", k, " is ", v, " instead of ", u);
                    }
                    if (fx[n] == 1) {
                        REQUIRE(first == k + 1, "cell ", i, ",", j, ",", k, " is heavy below a light one");
                        first = k;
                    }
                }
                if (first > 0 && first < nx[2]) {
                    cols.push_back({m.x[0][i + m.ngh[0]], m.x[1][j + m.ngh[1]], m.x[2][first - 1 + m.ngh[2]], m.x[2][first + m.ngh[2]]});
                }
            }
        }
        // the heights are a combination of four modes with common amplitudes in [-1, 1]
        double const dz = m.x[2][1] - m.x[2][0];
        double const dx = m.x[0][1] - m.x[0][0];
        double const dy = m.x[1][1] - m.x[1][0];
        double best = std::numeric_limits<double>::infinity();
        for (int shift = 0; shift < 2; ++shift) {
            // projection onto the slabs lo < a . coef <= hi
            std::array<double, 4> coef {0, 0, 0, 0};
            double worst = 0;
            for (int it = 0; it < 3000; ++it) {
                worst = 0;
                for (auto const& q : cols) {
                    double const X = 2 * std::numbers::pi * (q.x + (shift * dx / 2)) / 10;
                    double const Y = 2 * std::numbers::pi * (q.y + (shift * dy / 2)) / 10;
                    std::array<double, 4> a {0, 0, 0, 0};
                    for (int kx = 0; kx < 5; ++kx) {
                        for (int ky = 0; ky < 5; ++ky) {
                            int const K = (kx * kx) + (ky * ky);
                            if (K >= 8 && K <= 16) {
                                a[0] += std::cos(kx * X) * std::cos(ky * Y);
                                a[1] += std::cos(kx * X) * std::sin(ky * Y);
                                a[2] += std::sin(kx * X) * std::cos(ky * Y);
                                a[3] += std::sin(kx * X) * std::sin(ky * Y);
                            }
                        }
                    }
                    double h = 0;
                    double n2 = 0;
                    for (int t = 0; t < 4; ++t) {
                        h += a[t] * coef[t];
                        n2 += a[t] * a[t];
                    }
                    double const lo = q.lo + (shift * dz / 2);
                    double const hi = q.hi + (shift * dz / 2);
                    double const out = h < lo ? lo - h : h > hi ? hi - h : 0;
                    worst = std::max(worst, std::abs(out));
                    if (n2 > 1e-20) {
                        for (int t = 0; t < 4; ++t) {
                            coef[t] += out * a[t] / n2;
                        }
                    }
                    for (double& t : coef) {
                        t = std::clamp(t, -1., 1.);
                    }
                }
                if (worst < 0.02 * dz) {
                    break;
                }
            }
            best = std::min(best, worst);
        }
        REQUIRE(best < 0.5 * dz, "the interface is not one combination of the four modes: off by ", best / dz, " cells");
    };
}
#elif defined(SETUP_sedov1d)
void problem(pbt::Case& c, Setup& s)
{
    if (run_spherical) {
        ball(c, s, 0.2, 1.5);
    } else {
        around(c, s, 0, 0., 1.);
    }
    double const rho = positive(c);
    double const u = c.b() ? 0. : speed(c);
    double const E0 = c.chance(1, 4) ? 1. : c.logd(1e-12, 1.);
    double const E1 = positive(c);
    s.param("rho0", rho);
    s.param("u0", u);
    s.param("E0", E0);
    s.param("E1", E1);
    Mesh const m = s.mesh;
    double const g1 = s.gamma - 1;
    s.at = [=](Cell const& q) -> Wanted {
        // energies per volume of the first cell; a plane explosion sends half of its energy to the other side
        double const v = cell_volume(m, m.ngh[0], m.ngh[1], m.ngh[2]);
        return {uniform(rho, u, g1 * (q.g[0] == 0 ? (run_spherical ? 1. : 0.5) * E1 : E0) / v)};
    };
}
#elif defined(SETUP_sedov2d)
void problem(pbt::Case& c, Setup& s)
{
    double const w = c.logd(0.02, 0.4);
    around(c, s, 0, -w, w);
    around(c, s, 1, -w, w);
    double const rho = positive(c);
    double const u = c.b() ? 0. : speed(c);
    double const E0 = c.chance(1, 4) ? 1. : c.logd(1e-12, 1.);
    double const E1 = c.chance(1, 4) ? 1. : c.logd(1., 1e5);
    s.param("rho0", rho);
    s.param("u0", u);
    s.param("E0", E0);
    s.param("E1", E1);
    double const g1 = s.gamma - 1;
    s.at = [=](Cell const& q) -> Wanted {
        double near2 = 0;
        double far2 = 0;
        for (int d = 0; d < 2; ++d) {
            double const n = q.lo[d] > 0 ? q.lo[d] : q.hi[d] < 0 ? -q.hi[d] : 0;
            double const f = std::max(std::abs(q.lo[d]), std::abs(q.hi[d]));
            near2 += n * n;
            far2 += f * f;
        }
        State const in = uniform(rho, u, g1 * E1 / q.dv);
        State const out = uniform(rho, u, g1 * E0 / q.dv);
        if (std::sqrt(far2) < 0.025 - 1e-12) {
            return {in};
        }
        if (std::sqrt(near2) > 0.025 + 1e-12) {
            return {out};
        }
        return {in, out};
    };
}
#elif defined(SETUP_sedov3d)
void problem(pbt::Case& c, Setup& s)
{
    if (c.b()) {
        ball(c, s, 0.5, 1.5);
    } else {
        // r = 1 is a face
        ball(c, s, 0.5, 1.5);
        box(s, 0, 1 - (0.5 * c.d(0.1, 1.)), 1);
        double const dr = c.pick({0.0625, 0.03125, 0.125, 0.05, 0.1});
        int const at = c.i(0, s.nx[0]);
        c.discard_if((at + s.ng) * dr >= 1);
        box(s, 0, 1 - (at * dr), 1 + ((s.nx[0] - at) * dr));
    }
    double const rho = positive(c);
    double const P0 = positive(c);
    double const E1 = c.chance(1, 4) ? 1. : c.logd(1., 1e5);
    s.param("rho0", rho);
    s.param("P0", P0);
    s.param("E1", E1);
    double const g1 = s.gamma - 1;
    auto const nx = s.nx;
    Mesh const m = s.mesh;
    s.at = [=](Cell const& q) -> Wanted {
        State const in = uniform(rho, 0, g1 * E1 / q.dv);
        State const out = uniform(rho, 0, P0);
        bool const middle = (q.g[1] == nx[1] / 2 || q.g[1] == (nx[1] - 1) / 2) && (q.g[2] == nx[2] / 2 || q.g[2] == (nx[2] - 1) / 2);
        if (middle && q.lo[0] <= 1 + 1e-12 && q.hi[0] >= 1 - 1e-12) {
            return {in, out};
        }
        return {out};
    };
    s.also = [=](H5File const& f) {
        auto const& P = f.at("P").v;
        int hot = 0;
        bool inside = false;
        int n = 0;
        for (int k = 0; k < nx[2]; ++k) {
            for (int j = 0; j < nx[1]; ++j) {
                for (int i = 0; i < nx[0]; ++i, ++n) {
                    double const v = g1 * E1 / cell_volume(m, i + m.ngh[0], j + m.ngh[1], k + m.ngh[2]);
                    if (std::abs(v - P0) <= 1e-6 * v) {
                        throw pbt::Discard();
                    }
                    hot += std::abs(P[n] - v) <= 1e-9 * v ? 1 : 0;
                }
            }
        }
        double const lo = m.x[0][m.ngh[0]];
        double const hi = m.x[0][m.ngh[0] + nx[0]];
        inside = lo <= 1 - 1e-12 && hi >= 1 + 1e-12;
        REQUIRE(hot <= 1, "the energy is put in ", hot, " cells");
        REQUIRE(hot == 1 || !inside, "the energy is put in no cell");
    };
}
#elif defined(SETUP_shock_tube)
void problem(pbt::Case& c, Setup& s)
{
    if (run_spherical) {
        ball(c, s, 1., 2.);
    } else {
        for (int d = 0; d < ndim; ++d) {
            around(c, s, d, 0., 1.);
        }
    }
    double const lo = s.mesh.x[0].front();
    double const hi = s.mesh.x[0].back();
    std::array<double, 2> rho {};
    std::array<double, 2> u {};
    std::array<double, 2> P {};
    for (int k = 0; k < 2; ++k) {
        std::string const n = std::to_string(k);
        rho[k] = positive(c);
        u[k] = speed(c);
        P[k] = positive(c);
        s.param(("rho" + n).c_str(), rho[k]);
        s.param(("u" + n).c_str(), u[k]);
        s.param(("P" + n).c_str(), P[k]);
    }
    double const inter = lo < 1 && hi > 1 && c.chance(1, 4) ? 1. : c.d(lo, hi);
    s.param("inter", inter);
    s.at = [=](Cell const& q) -> Wanted {
        if (near(q.c[0], inter, std::abs(lo) + std::abs(hi))) {
            return {uniform(rho[0], u[0], P[0]), uniform(rho[1], u[1], P[1])};
        }
        int const k = q.c[0] <= inter ? 0 : 1;
        return {uniform(rho[k], u[k], P[k])};
    };
}
#elif defined(SETUP_shock_wall)
void problem(pbt::Case& c, Setup& s)
{
    for (int d = 0; d < ndim; ++d) {
        around(c, s, d, 0., 1.);
    }
    double const rho = positive(c);
    double const u = speed(c);
    double const P = positive(c);
    s.param("rho0", rho);
    s.param("u0", u);
    s.param("P0", P);
    s.at = [=](Cell const&) -> Wanted { return {uniform(rho, u, P)}; };
}
#elif defined(SETUP_v1d)
void write_h5(hid_t f, char const* name, std::vector<hsize_t> const& dims, std::vector<double> const& v)
{
    hid_t const sp = H5Screate_simple(static_cast<int>(dims.size()), dims.data(), nullptr);
    hid_t const ds = H5Dcreate2(f, name, H5T_NATIVE_DOUBLE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    if (!v.empty()) {
        H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
    }
    H5Dclose(ds);
    H5Sclose(sp);
}
struct Profile
{
    std::vector<double> x, rho, u, P;
    std::vector<std::vector<double>> fx;
};
// wrong: 0 a correct file, otherwise which extent is wrong
void write_profile(std::string const& path, Profile const& p, int wrong = 0)
{
    hid_t const f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    auto const put = [&](char const* name, std::vector<double> v, int id) {
        if (wrong == id) {
            v.push_back(1.);
        } else if (wrong == -id) {
            v.pop_back();
        }
        write_h5(f, name, {v.size()}, v);
    };
    put("x0", p.x, 1);
    put("rho_1d", p.rho, 2);
    put("u_1d", p.u, 3);
    put("P_1d", p.P, 4);
    std::vector<double> all;
    for (auto const& q : p.fx) {
        all.insert(all.end(), q.begin(), q.end());
    }
    hsize_t rows = p.fx.size();
    hsize_t cols = p.rho.size();
    if (wrong == 5) {
        ++rows;
        all.resize(rows * cols, 0.5);
    } else if (wrong == -5) {
        ++cols;
        all.resize(rows * cols, 0.5);
    }
    write_h5(f, "fx_1d", {rows, cols}, all);
    H5Fclose(f);
}
Profile random_profile(pbt::Case& c, Setup& s)
{
    Profile p;
    s.nfx = c.i(1, 3);
    int const nf = s.nx[0] + (2 * s.ng) + 1;
    double x = c.d(0.5, 3.);
    for (int k = 0; k < nf; ++k) {
        p.x.push_back(x);
        x += c.d(0.02, 0.2);
    }
    auto const salt = c.below(1000000);
    auto const noise = [&](int f, int i) {
        pbt::u64 const h = pbt::mix(pbt::mix(salt + (f * 7919)) + i);
        return static_cast<double>(h >> 12) / 4503599627370496.;
    };
    s.mesh.x[0] = p.x;
    p.fx.resize(s.nfx);
    for (int i = 0; i < s.nx[0]; ++i) {
        p.rho.push_back(0.5 + noise(0, i));
        p.u.push_back(noise(1, i) - 0.5);
        p.P.push_back(0.5 + noise(2, i));
        for (int k = 0; k < s.nfx; ++k) {
            p.fx[k].push_back(noise(3 + k, i));
        }
    }
    return p;
}
void problem(pbt::Case& c, Setup& s)
{
    ball(c, s, 1., 2.);
    Profile const p = random_profile(c, s);
    std::string const path = scratch_dir("i01_v1d") + "/profile.h5";
    write_profile(path, p);
    s.ini.set("Grid", "type", "UserDefined");
    s.ini.set("Problem", "init_file", path);
    s.ini.set("Gravity", "M", 0);
    s.at = [=](Cell const& q) -> Wanted {
        int const i = q.g[0];
        State w {p.rho[i], {p.u[i], 0, 0}, p.P[i], {}, 1e-11, 1};
        for (auto const& f : p.fx) {
            w.fx.push_back(f[i]);
        }
        return {w};
    };
}
#endif

Setup random_setup(pbt::Case& c)
{
    Setup s;
    s.ng = c.i(2, 3);
    int const max_n = ndim == 1 ? 24 : ndim == 2 ? 11 : 8;
    for (int d = 0; d < 3; ++d) {
        s.nx[d] = d < ndim ? c.i(s.ng, std::max(max_n, 2 * s.ng)) : 1;
        s.ini.set("Grid", "Nx" + std::to_string(d) + "_glob", s.nx[d]);
    }
    if (s.ng != 2 || c.b()) {
        s.ini.set("Grid", "Nghost", s.ng);
    }
    s.mesh.ng = s.ng;
    s.mesh.nx = s.nx;
    for (int d = 0; d < 3; ++d) {
        s.mesh.ngh[d] = d < ndim ? s.ng : 0;
        s.mesh.x[d] = {0, 1};
    }
    s.gamma = c.pick({5. / 3, 1.4, 4. / 3});
    s.mu = c.d(0.5, 2.);
    s.ini.set("Perfect Gas", "gamma", s.gamma);
    s.ini.set("Perfect Gas", "mu", s.mu);
    s.omit = c.b();
    problem(c, s);
    s.ini.set("Passive Scalar", "nfx", s.nfx);
    for (int d = 0; d < ndim; ++d) {
        std::vector<std::string> kinds {"NullGradient", "Reflexive", "Periodic"};
#if defined(SETUP_eq_hydro_sphe) || defined(SETUP_stratified_atm)
        if (d == 0) {
            kinds.emplace_back("UserDefined");
        }
#endif
        s.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), c.pick(kinds));
    }
    s.ini.set("Hydro", "riemann_solver", c.pick(std::vector<std::string> {"HLL", "HLLC"}));
    s.ini.set("Output", "iter_frequency", 1);
    s.ini.set("Output", "max_iter", 1);
    return s;
}
Machine setup_machine(pbt::Case& c, Setup const& s)
{
    RunCase r;
    r.nx = s.nx;
    r.ng = s.ng;
    return c.chance(1, 4) ? random_machine(c, r, 1) : random_machine(c, r, 6, 6);
}

std::string differ(State const& w, H5File const& f, std::size_t n)
{
    double const rho = f.at("rho").v[n];
    double const P = f.at("P").v[n];
    if (!pbt::close(rho, w.rho, w.tol)) {
        return pbt::cat("density ", rho, " instead of ", w.rho);
    }
    double ek = 0;
    for (int d = 0; d < ndim; ++d) {
        double const u = f.at("ux" + std::to_string(d)).v[n];
        ek += w.rho * w.u[d] * w.u[d] / 2;
        if (!pbt::close(u, w.u[d], w.tol, w.uscale)) {
            return pbt::cat("velocity ", d, " ", u, " instead of ", w.u[d]);
        }
    }
    if (!pbt::close(P, w.P, w.tol, w.P + ek)) {
        return pbt::cat("pressure ", P, " instead of ", w.P);
    }
    for (std::size_t k = 0; k < w.fx.size(); ++k) {
        double const x = f.at("fx" + std::to_string(k)).v[n];
        if (!pbt::close(x, w.fx[k], w.tol, 1)) {
            return pbt::cat("scalar ", k, " ", x, " instead of ", w.fx[k]);
        }
    }
    return "";
}

} // namespace

PBT_TEST(initial_state, 1)
{
    Setup const s = random_setup(c);
    Machine const m = setup_machine(c, s);
    c.note("%s | %s", s.ini.show().c_str(), show(m).c_str());
    c.nontrivial(m.n > 1 || s.ng != 2);
    c.label(pbt::cat("ranks", m.n));
    std::string const dir = scratch_dir("i01");
    RunResult const res = run_program(s.ini, dir, m);
    auto const files = outputs(dir);
    REQUIRE(!files.empty(), "no initial state: ", res.describe());
    H5File const& f = files.begin()->second;
    REQUIRE(f.integer("iter") == 0, "the first output is not the initial state");
    for (int d = 0; d < ndim; ++d) {
        auto const& x = f.at("x" + std::to_string(d)).v;
        REQUIRE(x.size() == s.mesh.x[d].size(), "x", d, " has ", x.size(), " values");
        double const scale = std::abs(x.front()) + std::abs(x.back());
        for (std::size_t i = 0; i < x.size(); ++i) {
            REQUIRE(pbt::close(x[i], s.mesh.x[d][i], 1e-12, scale), "coordinate ", i, " of direction ", d, " is ", x[i], " instead of ", s.mesh.x[d][i]);
        }
    }
    RefEos const e {s.gamma, s.mu};
    std::size_t n = 0;
    for (int k = 0; k < s.nx[2]; ++k) {
        for (int j = 0; j < s.nx[1]; ++j) {
            for (int i = 0; i < s.nx[0]; ++i, ++n) {
                double ek = 0;
                double const rho = f.at("rho").v[n];
                for (int d = 0; d < ndim; ++d) {
                    double const u = f.at("ux" + std::to_string(d)).v[n];
                    ek += rho * u * u / 2;
                }
                double const E = ek + e.evol_from_pres(rho, f.at("P").v[n]);
                REQUIRE(pbt::close(f.at("E").v[n], E, 1e-10), "energy of cell ", i, ",", j, ",", k, " is ", f.at("E").v[n], " instead of ", E);
                if (!s.at) {
                    continue;
                }
                Cell q {};
                q.g = {i, j, k};
                for (int d = 0; d < 3; ++d) {
                    int const t = q.g[d] + s.mesh.ngh[d];
                    q.lo[d] = s.mesh.x[d][t];
                    q.hi[d] = s.mesh.x[d][t + 1];
                    q.c[d] = (q.lo[d] + q.hi[d]) / 2;
                }
                q.dv = cell_volume(s.mesh, i + s.mesh.ngh[0], j + s.mesh.ngh[1], k + s.mesh.ngh[2]);
                Wanted const w = s.at(q);
                std::string why;
                for (auto const& one : w) {
                    why = differ(one, f, n);
                    if (why.empty()) {
                        break;
                    }
                }
                REQUIRE(w.empty() || why.empty(), "initial state of cell ", i, ",", j, ",", k, " at ", q.c[0], ",", q.c[1], ",", q.c[2], ": ", why);
            }
        }
    }
    if (s.also) {
        s.also(f);
    }
}

#if defined(SETUP_eq_hydro_sphe) || defined(SETUP_stratified_atm)
// the user-defined boundary holds the state of the problem in its ghosts, and only there
PBT_TEST(user_boundary, 3)
{
    Setup s = random_setup(c);
    RunCase rc;
    rc.nx = s.nx;
    rc.ng = s.ng;
    int const side = c.i(0, 1);
    c.note("face %d %s", side, s.ini.show().c_str());
    c.nontrivial();
    INIReader const reader(write_text("i01.ini", s.ini.text()));
    reset(c);
    hclpp::Param const param(reader);
    hclpp::ParamSetup const user(reader);
    hclpp::EOS const eos(s.gamma, s.mu);
    RefEos const e {s.gamma, s.mu};
    ranks(1, [&](int) {
        auto const g = make_grid(s.mesh, {1, 1, 1});
#if defined(SETUP_eq_hydro_sphe)
        using Gravity = hclpp::PointMassGravity;
        Gravity const grav = hclpp::make_point_mass_gravity(param.M, *g);
#else
        using Gravity = hclpp::UniformGravity;
        Gravity const grav = hclpp::make_uniform_gravity(param.gx0, param.gx1, param.gx2);
#endif
        hclpp::BoundarySetup<Gravity> const bc(0, side, eos, user);
        auto const& n = g->Nx_local_wg;
        KV_double_3d const rho("rho", n[0], n[1], n[2]);
        KV_double_4d const rhou("rhou", n[0], n[1], n[2], ndim);
        KV_double_3d const E("E", n[0], n[1], n[2]);
        KV_double_4d const fx("fx", n[0], n[1], n[2], 0);
        fill3(rho, [](int i, int j, int k) { return 1000. + i + (100 * j) + (10000 * k); });
        fill3(E, [](int i, int j, int k) { return 3000. + i + (100 * j) + (10000 * k); });
        for (int d = 0; d < ndim; ++d) {
            for (int k = 0; k < n[2]; ++k) {
                for (int j = 0; j < n[1]; ++j) {
                    for (int i = 0; i < n[0]; ++i) {
                        rhou(i, j, k, d) = 7000. + d;
                    }
                }
            }
        }
        bc.execute(*g, grav, rho, rhou, E, fx);
        for (int k = 0; k < n[2]; ++k) {
            for (int j = 0; j < n[1]; ++j) {
                for (int i = 0; i < n[0]; ++i) {
                    bool const here = side == 0 ? i < s.ng : i >= s.nx[0] + s.ng;
                    if (!here) {
                        REQUIRE(rho(i, j, k) == 1000. + i + (100 * j) + (10000 * k) && E(i, j, k) == 3000. + i + (100 * j) + (10000 * k), "cell ", i, ",", j, ",", k, " is not a ghost of the face but has changed");
                        continue;
                    }
                    Cell q {};
                    q.c[0] = (s.mesh.x[0][i] + s.mesh.x[0][i + 1]) / 2;
                    State const w = s.at(q).front();
                    double ek = 0;
                    REQUIRE(pbt::close(rho(i, j, k), w.rho, w.tol), "density of ghost ", i, " is ", rho(i, j, k), " instead of ", w.rho);
                    for (int d = 0; d < ndim; ++d) {
                        ek += w.rho * w.u[d] * w.u[d] / 2;
                        REQUIRE(pbt::close(rhou(i, j, k, d), w.rho * w.u[d], w.tol), "momentum of ghost ", i, " is ", rhou(i, j, k, d), " instead of ", w.rho * w.u[d]);
                    }
                    double const want = ek + e.evol_from_pres(w.rho, w.P);
                    REQUIRE(pbt::close(E(i, j, k), want, w.tol), "energy of ghost ", i, " is ", E(i, j, k), " instead of ", want);
                }
            }
        }
        check_faults();
    });
}
#endif

#if defined(SETUP_v1d)
// a profile that does not fit the mesh is refused
PBT_TEST(misfit, 1)
{
    Setup s = random_setup(c);
    Profile const p = random_profile(c, s);
    s.ini.set("Passive Scalar", "nfx", s.nfx);
    std::string const path = scratch_dir("i01_misfit") + "/profile.h5";
    int const wrong = c.i(1, 5) * (c.b() ? 1 : -1);
    bool const missing = c.chance(1, 8);
    if (!missing) {
        write_profile(path, p, wrong);
    }
    s.ini.set("Problem", "init_file", path);
    Machine const m = setup_machine(c, s);
    c.note("wrong=%d missing=%d %s | %s", wrong, missing ? 1 : 0, s.ini.show().c_str(), show(m).c_str());
    c.nontrivial();
    std::string const dir = scratch_dir("i01");
    RunResult const res = run_program(s.ini, dir, m);
    REQUIRE(res.refused(), "a profile of other extents is not refused: ", res.describe());
    REQUIRE(outputs(dir).empty(), "a refused run has written an output");
}
// the mesh shifts when a cell at the outer edge is fast enough
PBT_TEST(criterion, 6)
{
    Setup s = random_setup(c);
    RunCase rc;
    rc.nx = s.nx;
    rc.ng = s.ng;
    Machine const m = random_machine(c, rc, 6, 6);
    int const cells = c.i(0, s.nx[0] + 2);
    double const limit = c.d(0.05, 1.);
    s.ini.set("Problem", "cell_shift", cells);
    s.ini.set("Problem", "vmax_shift", limit);
    double const top = c.d(0., 1.);
    int const fast = c.i(0, 3); // number of fast cells
    World w(s.mesh, s.nfx);
    auto const salt = c.below(1000000);
    for_each(w.rho, [&](int i, int j, int k) {
        // ghosts repeat the cells next to them
        auto const near_cell = [&](int t, int d) { return std::clamp(t, s.mesh.ngh[d], s.mesh.ngh[d] + s.nx[d] - 1); };
        pbt::u64 const h = pbt::mix(pbt::mix(salt) + near_cell(i, 0) + (1000 * near_cell(j, 1)) + (1000000 * near_cell(k, 2)));
        w.rho(i, j, k) = 0.5 + (static_cast<double>(h >> 40) / 16777216.);
        w.rhou[0](i, j, k) = w.rho(i, j, k) * (static_cast<double>(h & 0xffffff) / 16777216. - 0.6) * limit;
        for (int d = 1; d < ndim; ++d) {
            w.rhou[d](i, j, k) = 5 * w.rho(i, j, k);
        }
        w.E(i, j, k) = 10;
    });
    for (int q = 0; q < fast; ++q) {
        std::array<int, 3> p {};
        for (int d = 0; d < 3; ++d) {
            p[d] = s.mesh.ngh[d] + c.i(0, s.nx[d] - 1);
        }
        for_each(w.rho, [&](int i, int j, int k) {
            if (std::clamp(i, s.mesh.ngh[0], s.mesh.ngh[0] + s.nx[0] - 1) == p[0] && std::clamp(j, s.mesh.ngh[1], s.mesh.ngh[1] + s.nx[1] - 1) == p[1] && std::clamp(k, s.mesh.ngh[2], s.mesh.ngh[2] + s.nx[2] - 1) == p[2]) {
                w.rhou[0](i, j, k) = w.rho(i, j, k) * 2 * top * limit;
            }
        });
    }
    auto const fastest = [&](int n) {
        double v = -std::numeric_limits<double>::infinity();
        for_each(w.rho, [&](int i, int j, int k) {
            bool in = i >= s.mesh.ngh[0] + s.nx[0] - n;
            int const p[3] = {i, j, k};
            for (int d = 0; d < 3; ++d) {
                in = in && p[d] >= s.mesh.ngh[d] && p[d] < s.mesh.ngh[d] + s.nx[d];
            }
            if (in) {
                v = std::max(v, w.rhou[0](i, j, k) / w.rho(i, j, k));
            }
        });
        return v;
    };
    c.note("cells=%d limit=%g fast=%d top=%g %s | %s", cells, limit, fast, top, s.ini.show().c_str(), show(m).c_str());
    c.nontrivial(fast > 0);
    INIReader const reader(write_text("i01.ini", s.ini.text()));
    hclpp::ParamSetup const user(reader);
    reset(c);
    std::mutex mu;
    std::vector<int> got(m.n, -1);
    int last_cells = 0;
    ranks(
            m.n,
            [&](int r) {
                Grid g(s.nx, m.dims, s.ng);
                set_grid(g, s.mesh);
                auto const& n = g.Nx_local_wg;
                KV_double_3d const rho("rho", n[0], n[1], n[2]);
                KV_double_4d const rhou("rhou", n[0], n[1], n[2], ndim);
                KV_double_3d const E("E", n[0], n[1], n[2]);
                KV_double_4d const fx("fx", n[0], n[1], n[2], s.nfx);
                auto const& o = g.range.Corner_min;
                fill3(rho, [&](int i, int j, int k) { return w.rho(i + o[0], j + o[1], k + o[2]); });
                fill3(E, [&](int i, int j, int k) { return w.E(i + o[0], j + o[1], k + o[2]); });
                for (int d = 0; d < ndim; ++d) {
                    for (int k = 0; k < n[2]; ++k) {
                        for (int j = 0; j < n[1]; ++j) {
                            for (int i = 0; i < n[0]; ++i) {
                                rhou(i, j, k, d) = w.rhou[d](i + o[0], j + o[1], k + o[2]);
                            }
                        }
                    }
                }
                hclpp::UserShiftCriterion const crit(user);
                int answer = -1;
                try {
                    answer = crit.execute(g.range.no_ghosts(), g, rho, rhou, E, fx) ? 1 : 0;
                } catch (std::exception const&) {
                    answer = 2;
                }
                check_faults();
                std::lock_guard<std::mutex> const l(mu);
                got[r] = answer;
                if (g.mpi_rank_cart[0] == g.mpi_dims_cart[0] - 1) {
                    last_cells = g.Nx_local_ng[0];
                }
            },
            m.schedule,
            m.perm);
    for (int const a : got) {
        REQUIRE(a == got[0], "processes disagree on the shift");
    }
    if (cells > last_cells) {
        REQUIRE(got[0] == 2, "a window of ", cells, " cells is not refused by a last process of ", last_cells);
        return;
    }
    REQUIRE(got[0] != 2, "a window of ", cells, " cells is refused by a last process of ", last_cells);
    // (the window of the code base is Nghost cells larger than cell_shift)
    if (cells > 0 && fastest(cells) >= limit) {
        REQUIRE(got[0] == 1, "no shift with a velocity of ", fastest(cells), " in the last ", cells, " cells");
    }
    if (fastest(cells + s.ng) < limit) {
        REQUIRE(got[0] == 0, "a shift with a largest velocity of ", fastest(cells + s.ng));
    }
}
#endif

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
