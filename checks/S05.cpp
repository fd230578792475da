// S05: one step against the reference implementation.
#include <pbt.hpp>

#include <step.hpp>

using namespace hz;

namespace {

void step_case(pbt::Case& c, std::array<int, 3> dims)
{
    ProblemOpt o;
    o.gravity = true;
    o.parts = dims;
    Problem const p = random_problem(c, o);
    ref::Reference r(p);
    World want = r.run();
    c.discard_if(!r.valid);
    int const n = dims[0] * dims[1] * dims[2];
    c.note("ranks=%d", n);
    c.nontrivial();
    World got = run_steps(p, 1, dims, c.below(1000));
    require_same(got, want, p.m, magnitude(p), step_tol(), "after one step");
}

} // namespace

PBT_TEST(serial, 4)
{
    reset(c);
    step_case(c, {1, 1, 1});
    check_faults();
}
PBT_TEST(decomposed, 1)
{
    reset(c);
    int const n = c.i(2, 4);
    step_case(c, random_dims(c, n));
}

// smooth data on a fine mesh: the rate of change is the one of the Euler equations
PBT_TEST(consistency, 2)
{
    reset(c);
    using P3 = std::array<double, 3>;
    double const h = 1e-3;
    Problem p;
    p.e = random_eos(c);
    p.solver = c.i(0, nsolvers - 1);
    p.limiter = c.i(0, nlimiters - 1);
    p.nfx = c.i(0, 1);
    EulerPrim const base = random_prim(c, p.e, 2.);
    double const cs = p.e.sound(base.rho, base.P);
    P3 x0 {0, 0, 0};
    P3 len {1, 1, 1};
    if (spherical) {
        x0 = {c.logd(0.3, 3.), c.d(0.4, 2.7), c.d(0., 3.)};
        len = {x0[0], 1, 1};
    } else {
        for (int d = 0; d < 3; ++d) {
            x0[d] = c.sym(2.);
            len[d] = c.logd(0.5, 2.);
        }
    }
    p.m.ng = 2;
    for (int d = 0; d < 3; ++d) {
        bool const on = d < ndim;
        p.m.nx[d] = 1;
        p.m.ngh[d] = on ? 2 : 0;
        int const n = on ? 5 : 1;
        for (int k = 0; k <= n; ++k) {
            p.m.x[d].push_back(x0[d] + (len[d] * (on ? h : 1) * (k - (n / 2.))));
        }
    }
    pbt::u64 const salt = c.below(100000);
    auto const wave = [&](int f, P3 const& x) {
        double a = 6.28 * hash01(salt, f, 9);
        for (int d = 0; d < ndim; ++d) {
            a += (2 * hash01(salt, f, d) - 1) * 2 * (x[d] - x0[d]) / len[d];
        }
        return std::sin(a);
    };
    auto const prim = [&](P3 const& x) {
        ref::Prim q {base.rho * (1 + (0.3 * wave(0, x))), {0, 0, 0}, base.P * (1 + (0.3 * wave(1, x)))};
        for (int d = 0; d < ndim; ++d) {
            q.u[d] = base.u[d] + (0.3 * cs * wave(2 + d, x));
        }
        return q;
    };
    auto const fx = [&](P3 const& x) { return 0.5 + (0.4 * wave(7, x)); };
    P3 grav {0, 0, 0};
    bool const with_gravity = c.b();
    double const size = *std::max_element(len.begin(), len.begin() + ndim);
    if (with_gravity) {
        for (int d = 0; d < ndim; ++d) {
            grav[d] = c.sym(2.) * cs * cs / size;
        }
        p.g.assign(ndim, Global(p.m));
        for (int d = 0; d < ndim; ++d) {
            std::fill(p.g[d].v.begin(), p.g[d].v.end(), grav[d]);
        }
    }
    p.w = World(p.m, p.nfx);
    for_each(p.w.rho, [&](int i, int j, int k) {
        P3 const x {(p.m.x[0][i] + p.m.x[0][i + 1]) / 2, (p.m.x[1][j] + p.m.x[1][j + 1]) / 2, (p.m.x[2][k] + p.m.x[2][k + 1]) / 2};
        set_cell(p.w, i, j, k, prim(x), p.e);
        for (auto& g : p.w.fx) {
            g(i, j, k) = fx(x);
        }
    });
    // rate of the equations: - divergence of the flux + curvature + gravity
    ref::Prim const q0 = prim(x0);
    ref::Cons rate {0, {0, 0, 0}, 0};
    double rate_fx = 0;
    for (int d = 0; d < ndim; ++d) {
        double const del = 1e-4 * len[d];
        double const lame = !spherical || d == 0 ? 1. : d == 1 ? x0[0] : x0[0] * std::sin(x0[1]);
        auto const weight = [&](P3 const& x) { return !spherical || d == 2 ? 1. : d == 0 ? x[0] * x[0] : std::sin(x[1]); };
        P3 a = x0;
        P3 b = x0;
        a[d] -= del;
        b[d] += del;
        double const k = 1 / (2 * del * lame * weight(x0));
        ref::Cons const fa = ref::flux(prim(a), d, p.e);
        ref::Cons const fb = ref::flux(prim(b), d, p.e);
        rate = ref::lin(1, rate, 1, ref::lin(k * weight(a), fa, -k * weight(b), fb));
        rate_fx += k * ((weight(a) * fa.rho * fx(a)) - (weight(b) * fb.rho * fx(b)));
    }
    if (spherical) {
        double const r = x0[0];
        double const cot = ndim >= 2 ? 1 / std::tan(x0[1]) : 0.;
        auto const& u = q0.u;
        rate.m[0] += ((q0.rho * ((u[1] * u[1]) + (u[2] * u[2]))) + (2 * q0.P)) / r;
        if (ndim >= 2) {
            rate.m[1] += ((-q0.rho * u[0] * u[1]) + (((q0.rho * u[2] * u[2]) + q0.P) * cot)) / r;
        }
        rate.m[2] -= q0.rho * u[2] * (u[0] + (u[1] * cot)) / r;
    }
    for (int d = 0; d < ndim; ++d) {
        rate.m[d] += grav[d] * q0.rho;
        rate.E += grav[d] * q0.rho * q0.u[d];
    }
    p.dt = 0.1 * stability_limit(p);
    c.note("%s %s gamma=%g x0=(%.3g,%.3g,%.3g) salt=%llu base(%s) gravity=%d", solver_names[p.solver], limiter_names[p.limiter], p.e.gamma, x0[0], x0[1], x0[2], static_cast<unsigned long long>(salt), show(base).c_str(), with_gravity);
    c.nontrivial();
    World w = run_steps(p);
    std::array<int, 3> const at {p.m.ngh[0], p.m.ngh[1], p.m.ngh[2]};
    Mag const s = magnitude(p);
    double v = cs;
    for (double const x : q0.u) {
        v += std::abs(x);
    }
    double smallest = 1e300;
    for (int d = 0; d < ndim; ++d) {
        double const lame = !spherical || d == 0 ? 1. : d == 1 ? x0[0] : x0[0] * std::sin(x0[1]);
        smallest = std::min(smallest, lame * len[d]);
    }
    double const unit = v / smallest;
    double const tol = 0.02;
    auto const all = w.all();
    auto const old = p.w.all();
    for (int f = 0; f < static_cast<int>(all.size()); ++f) {
        double const x = (*all[f])(at[0], at[1], at[2]);
        double const y = (*old[f])(at[0], at[1], at[2]);
        double got = (x - y) / p.dt;
        double want = f == 0 ? rate.rho : f <= ndim ? rate.m[f - 1] : f == ndim + 1 ? rate.E : rate_fx;
        double sc = s.of(f) * unit;
        if (f > ndim + 1) {
            got = ((x * w.rho(at[0], at[1], at[2])) - (y * p.w.rho(at[0], at[1], at[2]))) / p.dt;
            sc = s.rho * unit;
        }
        REQUIRE(std::abs(got - want) <= tol * sc, "rate of change of ", field_name(f), "[", f, "] is ", got, ", of the Euler equations ", want, " (error ", std::abs(got - want) / sc, " of the scale)");
    }
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
