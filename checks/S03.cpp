// S03: equivalent problems have equivalent solutions.
#include <numbers>

#include <pbt.hpp>

#include <step.hpp>

using namespace hz;

namespace {

using I3 = std::array<int, 3>;

// value at x of the transformed field = value at map(x) of the original; component d of vectors comes from comp[d] with a sign
template <class Map>
World transform(World& w, Mesh const& to, int nfx, Map map, I3 comp = {0, 1, 2}, std::array<double, 3> sign = {1, 1, 1})
{
    World r(to, nfx);
    for_each(r.rho, [&](int i, int j, int k) {
        I3 const s = map(I3 {i, j, k});
        r.rho(i, j, k) = w.rho(s[0], s[1], s[2]);
        r.E(i, j, k) = w.E(s[0], s[1], s[2]);
        for (int d = 0; d < ndim; ++d) {
            r.rhou[d](i, j, k) = sign[d] * w.rhou[comp[d]](s[0], s[1], s[2]);
        }
        for (int f = 0; f < nfx; ++f) {
            r.fx[f](i, j, k) = w.fx[f](s[0], s[1], s[2]);
        }
    });
    return r;
}
template <class Map>
std::vector<Global> transform(std::vector<Global> const& g, Mesh const& to, Map map, I3 comp = {0, 1, 2}, std::array<double, 3> sign = {1, 1, 1})
{
    std::vector<Global> r;
    if (g.empty()) {
        return r;
    }
    for (int d = 0; d < ndim; ++d) {
        Global x(to);
        for_each(x, [&](int i, int j, int k) {
            I3 const s = map(I3 {i, j, k});
            x(i, j, k) = sign[d] * g[comp[d]](s[0], s[1], s[2]);
        });
        r.push_back(x);
    }
    return r;
}
Problem start(pbt::Case& c, bool gravity, bool periodic = false)
{
    ProblemOpt o;
    o.gravity = gravity;
    o.periodic = periodic;
    Problem p = random_problem(c, o);
    p.fix = c.chance(1, 4);
    p.eps = c.pick({0.1, 10.});
    return p;
}
void require_physical(pbt::Case& c, Problem const& p)
{
    ref::Reference r(p);
    r.run();
    c.discard_if(!r.valid);
    if (p.fix) { // away from the discontinuity of the safeguard
        bool edge = false;
        for_each(p.w.rho, [&](int i, int j, int k) {
            ref::Cons const q = ref::get(p.w, {i, j, k});
            double const x = (q.E - ref::ekin(q)) / (p.eps * ref::ekin(q));
            edge = edge || std::abs(x - 0.1) < 1e-6 || std::abs(x - 1) < 1e-6;
        });
        c.discard_if(edge);
    }
    c.nontrivial();
}
double meta_tol()
{
    return perfect_gas ? 1e-8 : 1e-5;
}
// rounding errors may send a cell to the other branch of nearly everything but the solution depends continuously on it
void compare(Problem const& p, World& a, World& b, char const* what)
{
    require_same(a, b, p.m, magnitude(p), meta_tol(), what);
}

} // namespace

PBT_TEST(mirror, 3)
{
    reset(c);
    Problem const p = start(c, true);
    if (spherical && ndim == 1) { // the radius has a direction: nothing to mirror
        return;
    }
    int const d = spherical ? c.i(1, ndim - 1) : c.i(0, ndim - 1);
    require_physical(c, p);
    c.note("axis=%d", d);
    Problem q = p;
    int const n = p.w.rho.n[d];
    double const about = spherical && d == 1 ? std::numbers::pi : 0.;
    for (int k = 0; k <= n; ++k) {
        q.m.x[d][k] = about - p.m.x[d][n - k];
    }
    std::swap(q.bc[d][0], q.bc[d][1]);
    auto const map = [&](I3 x) {
        x[d] = n - 1 - x[d];
        return x;
    };
    std::array<double, 3> sign {1, 1, 1};
    sign[d] = -1;
    World pw = p.w;
    q.w = transform(pw, q.m, p.nfx, map, {0, 1, 2}, sign);
    q.g = transform(p.g, q.m, map, {0, 1, 2}, sign);
    World a = run_steps(p);
    World const b = run_steps(q);
    World bb = b;
    World back = transform(bb, p.m, p.nfx, map, {0, 1, 2}, sign);
    compare(p, back, a, "mirrored problem");
    check_faults();
}

PBT_TEST(relabel, 3)
{
    reset(c);
    Problem const p = start(c, true);
    if (spherical || ndim == 1) {
        return;
    }
    require_physical(c, p);
    auto perm = random_perm(c, ndim);
    I3 comp {0, 1, 2};
    for (int d = 0; d < ndim; ++d) {
        comp[d] = perm[d];
    }
    c.note("axes %d%d%d", comp[0], comp[1], comp[2]);
    Problem q = p;
    for (int d = 0; d < ndim; ++d) {
        q.m.x[d] = p.m.x[comp[d]];
        q.m.nx[d] = p.m.nx[comp[d]];
        q.bc[d] = p.bc[comp[d]];
    }
    // x' = (x[comp[0]], x[comp[1]], ..): index of the new array -> index of the old one
    auto const map = [&](I3 const& x) {
        I3 y {0, 0, 0};
        for (int d = 0; d < 3; ++d) {
            y[comp[d]] = x[d];
        }
        return y;
    };
    auto const inv = [&](I3 const& y) {
        I3 x {0, 0, 0};
        for (int d = 0; d < 3; ++d) {
            x[d] = y[comp[d]];
        }
        return x;
    };
    I3 icomp {0, 1, 2};
    for (int d = 0; d < 3; ++d) {
        icomp[comp[d]] = d;
    }
    World pw = p.w;
    q.w = transform(pw, q.m, p.nfx, map, comp);
    q.g = transform(p.g, q.m, map, comp);
    World a = run_steps(p);
    World b = run_steps(q);
    World back = transform(b, p.m, p.nfx, inv, icomp);
    compare(p, back, a, "relabelled axes");
    check_faults();
}

PBT_TEST(translate, 2)
{
    reset(c);
    if (spherical && ndim < 3) {
        return;
    }
    Problem const p = start(c, false, !spherical);
    int const d = spherical ? 2 : c.i(0, ndim - 1);
    Problem p0 = p;
    if (spherical) { // only the azimuth can be translated
        p0.bc[2] = {Bc::Periodic, Bc::Periodic};
        auto const saved = p0.m.x;
        wrap_mesh(p0.m);
        p0.m.x[0] = saved[0];
        p0.m.x[1] = saved[1];
        fill_ghosts(p0.w, p0.m, p0.bc);
    }
    require_physical(c, p0);
    int const n = p.m.nx[d];
    int const ng = p.m.ng;
    int const s = c.i(1, std::max(1, n - 1));
    c.note("axis=%d by=%d", d, s);
    Problem q = p0;
    std::vector<double> width(n);
    for (int k = 0; k < n; ++k) {
        int const o = ng + ((k + s) % n);
        width[k] = p0.m.x[d][o + 1] - p0.m.x[d][o];
    }
    q.m.x[d][0] = p0.m.x[d][0];
    for (int k = 0; k < n + (2 * ng); ++k) {
        q.m.x[d][k + 1] = q.m.x[d][k] + width[(((k - ng) % n) + n) % n];
    }
    auto const shift = [&](int by) {
        return [d, n, ng, by](I3 x) {
            x[d] = ng + ((((x[d] - ng + by) % n) + n) % n);
            return x;
        };
    };
    World pw = p0.w;
    q.w = transform(pw, q.m, p0.nfx, shift(s));
    World a = run_steps(p0);
    World b = run_steps(q);
    World back = transform(b, p0.m, p0.nfx, shift(-s));
    compare(p0, back, a, "translated problem");
    check_faults();
}

PBT_TEST(units_of_measure, 2)
{
    reset(c);
    Problem const p = start(c, true);
    if (!perfect_gas) { // the constants of the radiation set the units
        return;
    }
    require_physical(c, p);
    double const L = c.logd(1e-6, 1e6);
    double const M = c.logd(1e-6, 1e6);
    double const T = c.logd(1e-6, 1e6);
    c.note("L=%g M=%g T=%g", L, M, T);
    double const rho = M / (L * L * L);
    double const mom = rho * L / T;
    double const en = mom * L / T;
    Problem q = p;
    q.dt = p.dt * T;
    for (int d = 0; d < (spherical ? 1 : ndim); ++d) {
        for (double& x : q.m.x[d]) {
            x *= L;
        }
    }
    auto const scale = [&](World& w, double s) {
        auto const all = w.all();
        for (std::size_t f = 0; f < all.size(); ++f) {
            double const k = f == 0 ? rho : static_cast<int>(f) <= ndim ? mom : static_cast<int>(f) == ndim + 1 ? en : 1.;
            for (double& x : all[f]->v) {
                x *= s > 0 ? k : 1 / k;
            }
        }
    };
    scale(q.w, 1);
    for (auto& g : q.g) {
        for (double& x : g.v) {
            x *= L / (T * T);
        }
    }
    World a = run_steps(p);
    World b = run_steps(q);
    scale(b, -1);
    compare(p, b, a, "other units");
    check_faults();
}

// a problem that does not vary along the last axes has the solution of the problem with fewer dimensions
PBT_TEST(embed, 3)
{
    reset(c);
    Problem p = start(c, false);
    if (ndim == 1) {
        return;
    }
    int const nd = c.i(1, ndim - 1);
    c.note("dimensions that matter=%d", nd);
    for (int d = nd; d < ndim; ++d) {
        p.bc[d] = {Bc::Null, Bc::Null};
    }
    World const w0 = p.w;
    for_each(p.w.rho, [&](int i, int j, int k) {
        I3 s {i, j, k};
        for (int d = nd; d < ndim; ++d) {
            s[d] = p.m.ngh[d];
        }
        p.w.rho(i, j, k) = w0.rho(s[0], s[1], s[2]);
        p.w.E(i, j, k) = w0.E(s[0], s[1], s[2]);
        for (int d = 0; d < ndim; ++d) {
            p.w.rhou[d](i, j, k) = w0.rhou[d](s[0], s[1], s[2]);
        }
        for (int f = 0; f < p.nfx; ++f) {
            p.w.fx[f](i, j, k) = w0.fx[f](s[0], s[1], s[2]);
        }
        if (spherical) {
            ref::Prim q = ref::to_prim(ref::get(p.w, {i, j, k}), p.e);
            for (int d = nd; d < ndim; ++d) {
                q.u[d] = 0;
            }
            set_cell(p.w, i, j, k, q, p.e);
        }
    });
    require_physical(c, p);
    ref::Reference r(p, nd);
    World want = r.run();
    c.discard_if(!r.valid);
    World got = run_steps(p);
    compare(p, got, want, "problem with fewer dimensions");
    check_faults();
}

// changing one cell changes nothing beyond two cells away
PBT_TEST(locality, 2)
{
    reset(c);
    ProblemOpt o;
    o.gravity = true;
    o.min_n = 4;
    o.max_n = ndim == 1 ? 12 : ndim == 2 ? 8 : 6;
    Problem p = random_problem(c, o);
    p.fix = c.b();
    p.eps = c.pick({0.1, 10.});
    I3 x {0, 0, 0};
    for (int d = 0; d < ndim; ++d) {
        x[d] = c.i(0, p.w.rho.n[d] - 1);
    }
    require_physical(c, p);
    Problem q = p;
    ref::Prim s = ref::to_prim(ref::get(p.w, x), p.e);
    s.rho *= 1.5;
    s.P *= 0.75;
    s.u[0] *= 0.5;
    set_cell(q.w, x[0], x[1], x[2], s, p.e);
    for (int f = 0; f < p.nfx; ++f) {
        q.w.fx[f](x[0], x[1], x[2]) = 0.25;
    }
    World a = run_steps(p);
    World b = run_steps(q);
    auto const u = a.all();
    auto const v = b.all();
    for_each(a.rho, [&](int i, int j, int k) {
        I3 const y {i, j, k};
        int far = 0;
        for (int d = 0; d < ndim; ++d) {
            far = std::max(far, std::abs(y[d] - x[d]));
        }
        if (far <= 2 || !ref::inside(p.m, y)) {
            return;
        }
        for (std::size_t f = 0; f < u.size(); ++f) {
            double const m = (*u[f])(i, j, k);
            double const n = (*v[f])(i, j, k);
            REQUIRE(m == n || (std::isnan(m) && std::isnan(n)), "a change of cell (", x[0], ",", x[1], ",", x[2], ") changes the ", field_name(static_cast<int>(f)), " of cell (", i, ",", j, ",", k, ")");
        }
    });
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
