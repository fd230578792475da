// S08: the solutions of whole runs converge to exact solutions of the Euler equations.
// Every case runs the program twice, at resolutions N and 2N, and compares both with the exact solution.
#include <numeric>

#include <exact.hpp>
#include <runs.hpp>
#include <states.hpp>

using namespace hz;

namespace {

constexpr double pi = 3.14159265358979323846;

// error of a run: relative L1 norm of the difference with the exact solution, over all fields
using Field = std::function<double(int, double, double, double)>;

struct Problem
{
    Ini ini;
    std::array<int, 3> nx {1, 1, 1};
    std::array<bool, 3> refine {true, true, true};
    std::array<double, 3> lo {0, 0, 0};
    std::array<double, 3> hi {1, 1, 1};
    double t_end = 0;
    int nfx = 0;
    Field initial; // and at user-defined boundaries
    Field final_;
    std::array<double, 20> scale {}; // per field
    std::vector<int> fields;
    bool hubble = false;
    std::array<double, 2> window {0, 1}; // part of every refined axis that is compared
};

std::vector<double> errors(Problem const& p, int factor, std::string const& tag)
{
    Ini ini = p.ini;
    std::array<int, 3> n = p.nx;
    for (int d = 0; d < 3; ++d) {
        if (d < ndim && p.refine[d]) {
            n[d] *= factor;
        }
        std::string const s = std::to_string(d);
        ini.set("Grid", "Nx" + s + "_glob", n[d]);
        if (d < ndim) {
            ini.set("Grid", "x" + s + "min", p.lo[d]);
            ini.set("Grid", "x" + s + "max", p.hi[d]);
        }
    }
    ini.set("Run", "t_end", p.t_end);
    ini.set("Output", "max_iter", 100000);
    ini.set("Passive Scalar", "nfx", p.nfx);
    exact_hook().field = p.initial;
    exact_hook().hubble = p.hubble;
    std::string const dir = scratch_dir("s08_" + tag);
    Machine m;
    m.dims = {1, 1, 1};
    m.budget = 100000000;
    run_ok(ini, dir, m);
    auto const files = outputs(dir);
    REQUIRE(!files.empty(), "no output");
    H5File const& f = files.rbegin()->second;
    REQUIRE(f.scalar("current_time") == p.t_end, "the run ended at ", f.scalar("current_time"), " instead of ", p.t_end);
    std::vector<double> e;
    for (int const k : p.fields) {
        auto const& v = f.at(k == 0 ? "rho" : k == 1 ? "P" : k < 10 ? "ux" + std::to_string(k - 2) : "fx" + std::to_string(k - 10)).v;
        REQUIRE(v.size() == static_cast<std::size_t>(n[0]) * n[1] * n[2], "field ", k, " has ", v.size(), " values");
        long double sum = 0;
        long cells = 0;
        std::size_t q = 0;
        for (int z = 0; z < n[2]; ++z) {
            for (int y = 0; y < n[1]; ++y) {
                for (int x = 0; x < n[0]; ++x, ++q) {
                    std::array<double, 3> const s {(x + 0.5) / n[0], (y + 0.5) / n[1], (z + 0.5) / n[2]};
                    bool inside = true;
                    std::array<double, 3> pos {};
                    for (int d = 0; d < 3; ++d) {
                        pos[d] = p.lo[d] + (s[d] * (p.hi[d] - p.lo[d]));
                        inside = inside && (d >= ndim || !p.refine[d] || (s[d] > p.window[0] && s[d] < p.window[1]));
                    }
                    if (!inside) {
                        continue;
                    }
                    REQUIRE(std::isfinite(v[q]), "field ", k, " contains ", v[q]);
                    sum += std::abs(v[q] - p.final_(k, pos[0], pos[1], pos[2]));
                    ++cells;
                }
            }
        }
        e.push_back(static_cast<double>(sum / cells) / p.scale[k]);
    }
    return e;
}

struct Scheme
{
    std::string rec, solver;
    bool first_order() const { return rec == "Constant"; }
};
Scheme random_scheme(pbt::Case& c, Ini& ini, bool low_mach = true)
{
    Scheme s;
    s.rec = c.pick(std::vector<std::string> {"Minmod", "VanLeer", "VanAlbada", "Constant"});
    std::vector<std::string> solvers {"HLLC", "HLL"};
    if (low_mach) {
        solvers.emplace_back("Low Mach");
    }
    s.solver = c.pick(solvers);
    ini.set("Hydro", "reconstruction", s.rec);
    ini.set("Hydro", "riemann_solver", s.solver);
    ini.set("Run", "cfl", c.d(0.2, 0.45));
    ini.set("Gravity", "M", 0);
    return s;
}
void gas(Ini& ini, double gamma, double mu)
{
    ini.set("Perfect Gas", "gamma", gamma);
    ini.set("Perfect Gas", "mu", mu);
}
// the error of every field on the coarse mesh is limited, and only a part of their sum is left on the fine one
void judge(std::string const& what, Problem const& p, double limit, double ratio, double floor)
{
    auto const a = errors(p, 1, "coarse");
    auto const b = errors(p, 2, "fine");
    double const sa = std::accumulate(a.begin(), a.end(), 0.) / a.size();
    double const sb = std::accumulate(b.begin(), b.end(), 0.) / b.size();
    if (std::getenv("S08_DUMP") != nullptr) {
        std::fprintf(stderr, "DUMP %s|%g|%g|%g|%s|%s\n", what.c_str(), *std::max_element(a.begin(), a.end()), sa, sb, p.ini.get("Hydro", "reconstruction").c_str(), p.ini.get("Hydro", "riemann_solver").c_str());
        return;
    }
    for (std::size_t k = 0; k < a.size(); ++k) {
        REQUIRE(a[k] <= limit, what, ": error ", a[k], " of field ", p.fields[k], " on the coarse mesh (expected at most ", limit, ")");
        REQUIRE(b[k] <= limit, what, ": error ", b[k], " of field ", p.fields[k], " on the fine mesh (expected at most ", limit, ")");
    }
    REQUIRE(sb <= (ratio * sa) + floor, what, ": the mean error goes from ", sa, " to ", sb, " when the mesh is refined");
}
// smooth solutions: first order without reconstruction, second order with it
// (the low-dissipation solver leaves some noise when the flow is nearly at rest)
void smooth(std::string const& what, Problem const& p, Scheme const& s, double first, double second)
{
    judge(what, p, s.first_order() ? first : second, s.first_order() ? 0.7 : 0.45, s.solver == "Low Mach" ? 5e-4 : 3e-5);
}

// ---- exact solution of the Riemann problem (perfect gas)

struct Side
{
    double rho, u, P;
};
struct Riemann
{
    Side l, r;
    double g;
    double ps = 0, us = 0;
    double f(double p, Side const& s) const
    {
        double const c = std::sqrt(g * s.P / s.rho);
        if (p > s.P) {
            double const A = 2 / ((g + 1) * s.rho);
            double const B = (g - 1) / (g + 1) * s.P;
            return (p - s.P) * std::sqrt(A / (p + B));
        }
        return 2 * c / (g - 1) * (std::pow(p / s.P, (g - 1) / (2 * g)) - 1);
    }
    bool solve()
    {
        auto const h = [&](double p) { return f(p, l) + f(p, r) + r.u - l.u; };
        double a = 0;
        double b = 100 * (l.P + r.P + ((l.rho + r.rho) * (l.u - r.u) * (l.u - r.u)));
        if (h(a) >= 0 || h(b) <= 0) {
            return false; // vacuum
        }
        for (int k = 0; k < 200; ++k) {
            double const m = 0.5 * (a + b);
            (h(m) < 0 ? a : b) = m;
        }
        ps = 0.5 * (a + b);
        us = 0.5 * (l.u + r.u) + (0.5 * (f(ps, r) - f(ps, l)));
        return true;
    }
    double star_rho(Side const& s) const
    {
        double const q = ps / s.P;
        double const k = (g - 1) / (g + 1);
        return q > 1 ? s.rho * (q + k) / ((k * q) + 1) : s.rho * std::pow(q, 1 / g);
    }
    // outermost speed of the wave on a side; sign -1 on the left
    double head(Side const& s, int sign) const
    {
        double const c = std::sqrt(g * s.P / s.rho);
        double const q = ps / s.P;
        return q > 1 ? s.u + (sign * c * std::sqrt(((g + 1) / (2 * g) * q) + ((g - 1) / (2 * g)))) : s.u + (sign * c);
    }
    Side at(double xi) const
    {
        int const sign = xi < us ? -1 : 1;
        Side const& s = xi < us ? l : r;
        double const c = std::sqrt(g * s.P / s.rho);
        double const hd = head(s, sign);
        if (sign * xi > sign * hd) {
            return s;
        }
        Side const star {star_rho(s), us, ps};
        if (ps > s.P) {
            return star;
        }
        double const tail = us + (sign * std::sqrt(g * ps / star.rho));
        if (sign * xi < sign * tail) {
            return star;
        }
        double const u = 2 / (g + 1) * ((-sign * c) + ((g - 1) / 2 * s.u) + xi);
        double const cc = sign * (xi - u);
        double const rho = s.rho * std::pow(cc / c, 2 / (g - 1));
        return {rho, u, s.P * std::pow(cc / c, 2 * g / (g - 1))};
    }
};

} // namespace

#if defined(S08_CARTESIAN)
#if !defined(S08_RADIATION)
PBT_TEST(riemann_problem, 2)
{
    Problem p;
    Scheme const s = random_scheme(c, p.ini);
    double const g = c.pick({1.4, 5. / 3, 4. / 3});
    gas(p.ini, g, c.d(0.5, 2.));
    int const axis = static_cast<int>(c.below(ndim));
    Riemann q {};
    q.g = g;
    double const rho0 = c.logd(0.1, 10.);
    double const P0 = c.logd(0.1, 10.);
    double const c0 = std::sqrt(g * P0 / rho0);
    double const mean = c0 * c.sym(1.);
    double const du = c0 * c.sym(1.);
    q.l = {rho0 * c.logd(0.4, 2.5), mean + (0.5 * du), P0 * c.logd(0.25, 4.)};
    q.r = {rho0 * c.logd(0.4, 2.5), mean - (0.5 * du), P0 * c.logd(0.25, 4.)};
    c.discard_if(!q.solve() || q.ps < 0.1 * std::min(q.l.P, q.r.P));
    std::array<double, 3> vl {};
    std::array<double, 3> vr {};
    for (int d = 0; d < ndim; ++d) {
        vl[d] = c0 * c.sym(1.);
        vr[d] = c0 * c.sym(1.);
    }
    p.nfx = c.i(0, 1);
    double const len = c.logd(0.1, 10.);
    double const fastest = std::max({std::abs(q.head(q.l, -1)), std::abs(q.head(q.r, 1)), std::abs(q.us)});
    p.t_end = 0.4 * len / fastest;
    for (int d = 0; d < ndim; ++d) {
        p.refine[d] = d == axis;
        p.nx[d] = d == axis ? 50 : 3;
        // (cells of one shape)
        p.lo[d] = d == axis ? -0.5 * len : 0.;
        p.hi[d] = d == axis ? 0.5 * len : len * 3 / 50;
        p.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), d == axis ? "NullGradient" : "Periodic");
    }
    double const t = p.t_end;
    auto const value = [=](int n, double xi) -> double {
        if (n >= 10) {
            return xi < q.us ? 0.8 : 0.2;
        }
        if (n >= 2 && n - 2 != axis) {
            return xi < q.us ? vl[n - 2] : vr[n - 2];
        }
        Side const w = q.at(xi);
        return n == 0 ? w.rho : n == 1 ? w.P : w.u;
    };
    p.initial = [=](int n, double a, double b, double d) {
        double const x = axis == 0 ? a : axis == 1 ? b : d;
        if (n >= 10) {
            return x < 0 ? 0.8 : 0.2;
        }
        if (n >= 2 && n - 2 != axis) {
            return x < 0 ? vl[n - 2] : vr[n - 2];
        }
        Side const& w = x < 0 ? q.l : q.r;
        return n == 0 ? w.rho : n == 1 ? w.P : w.u;
    };
    p.final_ = [=](int n, double a, double b, double d) {
        double const x = axis == 0 ? a : axis == 1 ? b : d;
        return value(n, x / t);
    };
    double const sl = q.star_rho(q.l);
    double const sr = q.star_rho(q.r);
    p.scale[0] = std::max({q.l.rho, q.r.rho, sl, sr}) - (0.9 * std::min({q.l.rho, q.r.rho, sl, sr}));
    p.scale[1] = std::max({q.l.P, q.r.P, q.ps}) - (0.9 * std::min({q.l.P, q.r.P, q.ps}));
    for (int d = 0; d < ndim; ++d) {
        p.scale[2 + d] = d == axis ? std::max({q.l.u, q.r.u, q.us}) - std::min({q.l.u, q.r.u, q.us}) + (0.1 * c0) : std::abs(vl[d] - vr[d]) + (0.1 * c0);
    }
    p.scale[10] = 0.6;
    p.fields = {0, 1};
    for (int d = 0; d < ndim; ++d) {
        p.fields.push_back(2 + d);
    }
    if (p.nfx > 0) {
        p.fields.push_back(10);
    }
    c.note("%s %s axis=%d g=%.2f L=(%.3g %.3g %.3g) R=(%.3g %.3g %.3g) p*=%.3g u*=%.3g", s.rec.c_str(), s.solver.c_str(), axis, g, q.l.rho, q.l.u, q.l.P, q.r.rho, q.r.u, q.r.P, q.ps, q.us);
    c.nontrivial(true);
    judge("Riemann problem", p, 0.35, 0.92, 2e-3);
}
#endif

// every linear wave of the equations at once: two sound waves, the entropy wave, the shear waves and the scalar
PBT_TEST(linear_waves, 2)
{
    Problem p;
    Scheme const s = random_scheme(c, p.ini, false);
    double const g = c.pick({1.4, 5. / 3, 4. / 3});
    double const mu = c.d(0.5, 2.);
    gas(p.ini, g, mu);
    RefEos const eos {g, mu};
    double rho0 = c.logd(0.1, 10.);
    double P0 = c.logd(0.1, 10.);
    if (!perfect_gas) {
        Thermo const t = random_thermo(c, eos);
        rho0 = t.rho;
        P0 = t.P;
    }
    double const cs = eos.sound(rho0, P0);
    std::array<int, 3> k {0, 0, 0};
    std::array<double, 3> len {1, 1, 1};
    double const L = c.logd(0.1, 10.);
    int const main_axis = static_cast<int>(c.below(ndim));
    for (int d = 0; d < ndim; ++d) {
        k[d] = d == main_axis ? 1 : c.i(-1, 1);
    }
    if (ndim == 3 && k[0] * k[1] * k[2] != 0) {
        k[(main_axis + 1) % 3] = 0; // (too many cells)
    }
    std::array<double, 3> u0 {};
    std::array<double, 3> kv {};
    double kk = 0;
    for (int d = 0; d < ndim; ++d) {
        len[d] = k[d] != 0 ? L * c.d(0.7, 1.4) : L * 3 / 24;
        p.lo[d] = L * c.sym(2.);
        p.hi[d] = p.lo[d] + len[d];
        p.nx[d] = k[d] == 0 ? 3 : ndim == 1 ? 40 : ndim == 2 ? 20 : 14;
        p.refine[d] = k[d] != 0;
        u0[d] = cs * c.sym(1.);
        kv[d] = 2 * pi * k[d] / len[d];
        kk += kv[d] * kv[d];
        p.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), "Periodic");
    }
    kk = std::sqrt(kk);
    std::array<double, 3> n {};
    for (int d = 0; d < 3; ++d) {
        n[d] = kv[d] / kk;
    }
    p.nfx = c.i(0, 1);
    double const amp = 1e-4;
    double const ap = amp * c.sym(1.); // sound wave along n
    double const am = amp * c.sym(1.); // against n
    double const ae = amp * c.sym(1.); // entropy
    std::array<double, 3> shear {};
    if (ndim > 1) {
        double dot = 0;
        for (int d = 0; d < ndim; ++d) {
            shear[d] = amp * cs * c.sym(1.);
            dot += shear[d] * n[d];
        }
        for (int d = 0; d < ndim; ++d) {
            shear[d] -= dot * n[d];
        }
    }
    std::array<double, 5> ph {};
    for (double& x : ph) {
        x = c.d(0., 6.3);
    }
    auto const at = [=](int f, double a, double b, double d, double t) {
        std::array<double, 3> const x {a, b, d};
        double phase = 0;
        double un = 0;
        for (int q = 0; q < ndim; ++q) {
            phase += kv[q] * x[q];
            un += kv[q] * u0[q];
        }
        double const wp = std::cos(phase - ((un + (kk * cs)) * t) + ph[0]);
        double const wm = std::cos(phase - ((un - (kk * cs)) * t) + ph[1]);
        double const we = std::cos(phase - (un * t) + ph[2]);
        double const ws = std::cos(phase - (un * t) + ph[3]);
        double const wf = std::cos(phase - (un * t) + ph[4]);
        if (f == 0) {
            return rho0 * (1 + (ap * wp) + (am * wm) + (ae * we));
        }
        if (f == 1) {
            return P0 + (rho0 * cs * cs * ((ap * wp) + (am * wm)));
        }
        if (f < 10) {
            return u0[f - 2] + (n[f - 2] * cs * ((ap * wp) - (am * wm))) + (shear[f - 2] * ws);
        }
        return 0.5 + (0.4 * wf);
    };
    double const speed = cs + std::abs((u0[0] * n[0]) + (u0[1] * n[1]) + (u0[2] * n[2]));
    // the fastest wave travels part of a period
    p.t_end = 2 * pi / (kk * speed) * c.d(0.3, ndim == 3 ? 0.4 : 1.);
    double const t = p.t_end;
    p.initial = [=](int f, double a, double b, double d) { return at(f, a, b, d, 0); };
    p.final_ = [=](int f, double a, double b, double d) { return at(f, a, b, d, t); };
    p.scale[0] = amp * rho0;
    p.scale[1] = amp * rho0 * cs * cs;
    p.scale[10] = 0.4;
    p.fields = {0, 1};
    for (int d = 0; d < ndim; ++d) {
        p.scale[2 + d] = amp * cs;
        p.fields.push_back(2 + d);
    }
    if (p.nfx > 0) {
        p.fields.push_back(10);
    }
    c.note("%s %s k=%d,%d,%d rho0=%.3g P0=%.3g cs=%.3g t=%.3g", s.rec.c_str(), s.solver.c_str(), k[0], k[1], k[2], rho0, P0, cs, t);
    c.nontrivial(true);
    judge("linear waves", p, s.first_order() ? 1.5 : 0.35, s.first_order() ? 0.75 : 0.5, 2e-3);
}
#endif

#if !defined(S08_RADIATION)
// gas that expands from the origin: density and pressure stay uniform, the velocity proportional to the position
PBT_TEST(expansion, 1)
{
    Problem p;
    Scheme const s = random_scheme(c, p.ini);
    double const g = c.pick({1.4, 5. / 3, 4. / 3});
    gas(p.ini, g, c.d(0.5, 2.));
    double const rho0 = c.logd(0.1, 10.);
    double const P0 = c.logd(0.1, 10.);
    double const cs = std::sqrt(g * P0 / rho0);
    double const L = c.logd(0.1, 10.);
    for (int d = 0; d < ndim; ++d) {
        bool const angle = run_spherical && d > 0;
        p.nx[d] = ndim == 1 ? 30 : angle ? 4 : ndim == 2 ? 12 : 6;
        double const len = angle ? 0.6 : L;
        p.lo[d] = angle ? c.d(0.5, 1.2) : L * c.d(0.8, 2.);
        p.hi[d] = p.lo[d] + len;
        p.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), "UserDefined");
    }
    double const H = cs / p.hi[0] * c.d(0.3, 2.) * (c.chance(1, 4) ? -1 : 1);
    p.t_end = c.d(0.1, 0.5) * std::min(1 / std::abs(H), L / cs);
    int const nd = run_spherical ? 3 : ndim;
    p.nfx = c.i(0, 1);
    double const f = 1 + (H * p.t_end);
    c.discard_if(f < 0.6);
    auto const at = [=](int n, double a, double b, double d, double q) {
        std::array<double, 3> const x {a, b, d};
        if (n == 0) {
            return rho0 * std::pow(q, -nd);
        }
        if (n == 1) {
            return P0 * std::pow(q, -g * nd);
        }
        if (n >= 10) {
            return 0.3;
        }
        return run_spherical && n > 2 ? 0. : H * x[n - 2] / q;
    };
    p.hubble = true;
    p.initial = [=](int n, double a, double b, double d) { return at(n, a, b, d, 1); };
    p.final_ = [=](int n, double a, double b, double d) { return at(n, a, b, d, f); };
    p.scale[0] = rho0;
    p.scale[1] = P0;
    p.scale[10] = 1;
    p.fields = {0, 1};
    for (int d = 0; d < ndim; ++d) {
        p.scale[2 + d] = cs;
        p.fields.push_back(2 + d);
    }
    if (p.nfx > 0) {
        p.fields.push_back(10);
    }
    c.note("%s %s H=%.3g t=%.3g cs=%.3g", s.rec.c_str(), s.solver.c_str(), H, p.t_end, cs);
    c.nontrivial(true);
    smooth("expansion", p, s, 1., 0.2);
}

// isothermal equilibrium in the gravity of the program
PBT_TEST(hydrostatic, 1)
{
    Problem p;
    Scheme const s = random_scheme(c, p.ini);
    double const g = c.pick({1.4, 5. / 3, 4. / 3});
    gas(p.ini, g, c.d(0.5, 2.));
    double const rho0 = c.logd(0.1, 10.);
    double const cs = c.logd(0.1, 10.); // isothermal
    double const L = c.logd(0.1, 10.);
    std::array<double, 3> field {};
    double GM = 0;
    for (int d = 0; d < ndim; ++d) {
        bool const angle = run_spherical && d > 0;
        p.nx[d] = ndim == 1 ? 30 : angle ? 4 : ndim == 2 ? 14 : 6;
        p.lo[d] = angle ? c.d(0.5, 1.2) : L * (run_spherical ? c.d(0.8, 2.) : c.sym(2.));
        p.hi[d] = p.lo[d] + (angle ? 0.6 : L);
        p.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), "UserDefined");
    }
#if defined(VERIF_GRAVITY_Point_mass)
    // (the constant of gravitation of the program)
    GM = cs * cs * p.lo[0] * c.d(0.1, 3.);
    p.ini.set("Gravity", "M", GM / hclpp::units::G);
#else
    for (int d = 0; d < ndim; ++d) {
        field[d] = run_spherical && d > 0 ? 0. : cs * cs / L * c.sym(1.5);
        p.ini.set("Gravity", "gx" + std::to_string(d), field[d]);
    }
#endif
    auto const lo = p.lo;
    p.t_end = c.d(0.3, 1.) * L / cs;
    p.initial = [=](int n, double a, double b, double d) {
        double phi = GM * (1 / lo[0] - 1 / a);
        phi += -(field[0] * (a - lo[0])) - (field[1] * (b - lo[1])) - (field[2] * (d - lo[2]));
        double const rho = rho0 * std::exp(-phi / (cs * cs));
        return n == 0 ? rho : n == 1 ? rho * cs * cs : 0.;
    };
    p.final_ = p.initial;
    double big = 0;
    for (int k = 0; k < 8; ++k) {
        big = std::max(big, p.initial(0, (k & 1) != 0 ? p.lo[0] : p.hi[0], (k & 2) != 0 ? p.lo[1] : p.hi[1], (k & 4) != 0 ? p.lo[2] : p.hi[2]));
    }
    p.scale[0] = big;
    p.scale[1] = big * cs * cs;
    p.fields = {0, 1};
    for (int d = 0; d < ndim; ++d) {
        p.scale[2 + d] = cs;
        p.fields.push_back(2 + d);
    }
    c.note("%s %s g=(%.3g %.3g %.3g) GM=%.3g cs=%.3g t=%.3g", s.rec.c_str(), s.solver.c_str(), field[0], field[1], field[2], GM, cs, p.t_end);
    c.nontrivial(true);
    smooth("hydrostatic equilibrium", p, s, 0.08, 0.02);
}
#endif

#if defined(S08_CARTESIAN)
#if S08_NDIM > 1
// an isentropic vortex carried by a uniform flow
PBT_TEST(vortex, 1)
{
    Problem p;
    Scheme const s = random_scheme(c, p.ini);
    double const g = c.pick({1.4, 5. / 3});
    gas(p.ini, g, c.d(0.5, 2.));
    double const rho0 = c.logd(0.1, 10.);
    double const cs = c.logd(0.1, 10.);
    double const R = c.logd(0.1, 10.);
    int const a0 = ndim == 3 ? static_cast<int>(c.below(3)) : 0;
    int const a1 = ndim == 3 ? (a0 + 1) % 3 : 1;
    double const beta = c.d(0.5, 3.) * (c.b() ? 1 : -1);
    std::array<double, 3> u0 {};
    for (int d = 0; d < ndim; ++d) {
        bool const in = d == a0 || d == a1;
        u0[d] = cs * c.sym(1.);
        p.nx[d] = in ? (ndim == 3 ? 16 : 26) : 3;
        p.refine[d] = in;
        p.lo[d] = in ? -5 * R : 0.;
        p.hi[d] = in ? 5 * R : R;
        p.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), "Periodic");
    }
    p.t_end = c.d(0.3, ndim == 3 ? 0.8 : 2.) * R / cs;
    p.nfx = c.i(0, 1);
    auto const at = [=](int n, double x, double y, double z, double t) {
        std::array<double, 3> const q {x, y, z};
        auto const wrap = [&](double v) { return v - (10 * R * std::round(v / (10 * R))); };
        double const X = wrap(q[a0] - (u0[a0] * t)) / R;
        double const Y = wrap(q[a1] - (u0[a1] * t)) / R;
        double const e = std::exp(0.5 * (1 - (X * X) - (Y * Y)));
        double const T = 1 - ((g - 1) * beta * beta / (8 * pi * pi) * e * e);
        double const rho = rho0 * std::pow(T, 1 / (g - 1));
        if (n == 0) {
            return rho;
        }
        if (n == 1) {
            return rho * T * cs * cs / g;
        }
        if (n >= 10) {
            return 0.3 + (0.4 * e / std::exp(0.5));
        }
        int const d = n - 2;
        double const w = cs * beta / (2 * pi) * e;
        return u0[d] + (d == a0 ? -w * Y : d == a1 ? w * X : 0.);
    };
    double const t = p.t_end;
    p.initial = [=](int n, double x, double y, double z) { return at(n, x, y, z, 0); };
    p.final_ = [=](int n, double x, double y, double z) { return at(n, x, y, z, t); };
    p.scale[0] = rho0 * 0.1;
    p.scale[1] = rho0 * cs * cs / g * 0.1;
    p.scale[10] = 0.4;
    p.fields = {0, 1};
    for (int d = 0; d < ndim; ++d) {
        p.scale[2 + d] = 0.1 * cs;
        p.fields.push_back(2 + d);
    }
    if (p.nfx > 0) {
        p.fields.push_back(10);
    }
    c.note("%s %s beta=%.3g plane=%d%d R=%.3g cs=%.3g t=%.3g", s.rec.c_str(), s.solver.c_str(), beta, a0, a1, R, cs, t);
    c.nontrivial(true);
    smooth("vortex", p, s, 0.4, 0.12);
}
#endif
#else
// a steady flow along the radius: constant mass flux, entropy and Bernoulli's constant
PBT_TEST(radial_flow, 2)
{
    Problem p;
    Scheme const s = random_scheme(c, p.ini);
    double const g = c.pick({1.4, 5. / 3, 4. / 3});
    gas(p.ini, g, c.d(0.5, 2.));
    double const rho0 = c.logd(0.1, 10.);
    double const P0 = c.logd(0.1, 10.);
    double const cs = std::sqrt(g * P0 / rho0);
    double const L = c.logd(0.1, 10.);
    bool const supersonic = c.b();
    int const way = c.b() ? 1 : -1;
    double const u0 = cs * (supersonic ? c.d(1.5, 3.) : c.d(0.1, 0.6));
    for (int d = 0; d < ndim; ++d) {
        bool const angle = run_spherical && d > 0;
        p.nx[d] = ndim == 1 ? 30 : angle ? 4 : ndim == 2 ? 14 : 6;
        p.lo[d] = angle ? c.d(0.5, 1.2) : L * c.d(0.8, 2.);
        p.hi[d] = p.lo[d] + (angle ? 0.6 : L);
        p.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), "UserDefined");
    }
    double const r0 = p.lo[0];
    double GM = 0;
#if defined(VERIF_GRAVITY_Point_mass)
    GM = c.b() ? 0. : r0 * (supersonic ? u0 * u0 : cs * cs) * c.d(0., 0.3);
    p.ini.set("Gravity", "M", GM / hclpp::units::G);
#endif
    double const F = rho0 * u0 * r0 * r0;
    double const K = P0 / std::pow(rho0, g);
    double const B = (0.5 * u0 * u0) + (cs * cs / (g - 1)) - (GM / r0);
    auto const density = [=](double r) {
        // |u| as a function of the density decreases, the enthalpy increases; one solution on each side of the sonic point
        double const sonic = std::pow(F * F / (std::pow(r, 4) * g * K), 1 / (g + 1));
        auto const h = [&](double rho) {
            double const u = F / (rho * r * r);
            return (0.5 * u * u) + (g / (g - 1) * K * std::pow(rho, g - 1)) - (GM / r) - B;
        };
        if (h(sonic) > 0) {
            return -1.; // no flow
        }
        double a = sonic;
        double b = supersonic ? sonic * 1e-8 : sonic * 1e8;
        for (int k = 0; k < 200; ++k) {
            double const m = std::sqrt(a * b);
            (h(m) < 0 ? a : b) = m;
        }
        return std::sqrt(a * b);
    };
    for (double const r : {p.lo[0] - (0.2 * L), p.lo[0], p.hi[0], p.hi[0] + (0.2 * L)}) {
        double const rho = density(r);
        c.discard_if(rho < 0);
        double const mach = F / (rho * r * r) / std::sqrt(g * K * std::pow(rho, g - 1));
        c.discard_if(supersonic ? mach < 1.2 : mach > 0.8);
    }
    p.t_end = c.d(0.3, 1.) * L / std::max(u0, cs);
    p.initial = [=](int n, double a, double, double) {
        double const rho = density(a);
        return n == 0 ? rho : n == 1 ? K * std::pow(rho, g) : n == 2 ? way * F / (rho * a * a) : 0.;
    };
    p.final_ = p.initial;
    p.scale[0] = std::max(density(p.lo[0]), density(p.hi[0]));
    p.scale[1] = K * std::pow(p.scale[0], g);
    p.fields = {0, 1};
    for (int d = 0; d < ndim; ++d) {
        p.scale[2 + d] = std::max(cs, u0);
        p.fields.push_back(2 + d);
    }
    c.note("%s %s %s u0=%.3g cs=%.3g r=%.3g..%.3g GM=%.3g t=%.3g", s.rec.c_str(), s.solver.c_str(), supersonic ? "supersonic" : "subsonic", way * u0, cs, p.lo[0], p.hi[0], GM, p.t_end);
    c.nontrivial(true);
    smooth("radial flow", p, s, 0.25, 0.25);
}

#if S08_NDIM > 1
// parallel flow, described in spherical coordinates: any profile of density, speed and scalar across the flow is steady
PBT_TEST(parallel_flow, 2)
{
    Problem p;
    Scheme const s = random_scheme(c, p.ini);
    double const g = c.pick({1.4, 5. / 3, 4. / 3});
    gas(p.ini, g, c.d(0.5, 2.));
    double const rho0 = c.logd(0.1, 10.);
    double const P0 = c.logd(0.1, 10.);
    double const cs = std::sqrt(g * P0 / rho0);
    double const L = c.logd(0.1, 10.);
    for (int d = 0; d < ndim; ++d) {
        bool const angle = d > 0;
        p.nx[d] = ndim == 2 ? 12 : 6;
        p.lo[d] = angle ? c.d(0.6, 1.4) : L * c.d(0.8, 2.);
        p.hi[d] = p.lo[d] + (angle ? 0.7 : L);
        p.ini.set("Boundary Condition", std::string("BC") + bc_dirs(d), "UserDefined");
    }
    // the direction of the flow (the axis of symmetry in two dimensions)
    std::array<double, 3> e {0, 0, 1};
    if (ndim == 3) {
        double const z = c.sym(1.);
        double const a = c.d(0., 6.3);
        double const q = std::sqrt(std::max(0., 1 - (z * z)));
        e = {q * std::cos(a), q * std::sin(a), z};
    }
    // a direction across
    std::array<double, 3> n1 = std::abs(e[2]) < 0.7 ? std::array<double, 3> {e[1], -e[0], 0} : std::array<double, 3> {0, e[2], -e[1]};
    double const nn = std::sqrt((n1[0] * n1[0]) + (n1[1] * n1[1]) + (n1[2] * n1[2]));
    double const v0 = cs * c.sym(1.5);
    bool const patterned = c.b();
    double const drho = patterned ? c.d(0., 0.3) : 0.;
    double const dv = patterned ? cs * c.d(0., 0.3) : 0.;
    double const wave = c.d(0.5, 2.) / L;
    double const ph = c.d(0., 6.3);
    p.nfx = c.i(0, 1);
    p.initial = [=](int n, double r, double th, double phi) {
        if (ndim == 2) {
            phi = 0;
        }
        double const st = std::sin(th);
        double const ct = std::cos(th);
        double const sp = std::sin(phi);
        double const cp = std::cos(phi);
        std::array<double, 3> const x {r * st * cp, r * st * sp, r * ct};
        double const across = ndim == 2 ? r * st : ((x[0] * n1[0]) + (x[1] * n1[1]) + (x[2] * n1[2])) / nn;
        double const w = std::sin((wave * across) + ph);
        if (n == 0) {
            return rho0 * (1 + (drho * w));
        }
        if (n == 1) {
            return P0;
        }
        if (n >= 10) {
            return 0.5 + (0.4 * w);
        }
        double const v = v0 + (dv * w);
        std::array<double, 3> const er {st * cp, st * sp, ct};
        std::array<double, 3> const et {ct * cp, ct * sp, -st};
        std::array<double, 3> const ep {-sp, cp, 0};
        auto const& b = n == 2 ? er : n == 3 ? et : ep;
        return v * ((e[0] * b[0]) + (e[1] * b[1]) + (e[2] * b[2]));
    };
    p.final_ = p.initial;
    p.t_end = c.d(0.2, 0.6) * L / std::max(cs, std::abs(v0));
    p.scale[0] = rho0;
    p.scale[1] = P0;
    p.scale[10] = 0.4;
    p.fields = {0, 1};
    for (int d = 0; d < ndim; ++d) {
        p.scale[2 + d] = cs;
        p.fields.push_back(2 + d);
    }
    if (p.nfx > 0) {
        p.fields.push_back(10);
    }
    c.note("%s %s v0=%.3g drho=%.3g dv=%.3g e=(%.2f %.2f %.2f) cs=%.3g", s.rec.c_str(), s.solver.c_str(), v0, drho, dv, e[0], e[1], e[2], cs);
    c.nontrivial(true);
    smooth("parallel flow", p, s, 0.08, 0.02);
}
#endif
#endif

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
