// S01: totals over the domain change by the fluxes through its boundary, and by nothing else.
#include <pbt.hpp>

#include <step.hpp>

using namespace hz;

namespace {

struct Totals
{
    std::vector<double> v; // rho, rhou, E, rho*fx
    std::vector<double> mag; // sums of the magnitudes
};
Totals totals(Problem const& p, World& w)
{
    Totals t;
    auto const all = w.all();
    t.v.assign(all.size(), 0.);
    t.mag.assign(all.size(), 0.);
    Mag const s = magnitude(p);
    for_each(w.rho, [&](int i, int j, int k) {
        if (!ref::inside(p.m, {i, j, k})) {
            return;
        }
        double const v = cell_volume(p.m, i, j, k);
        for (std::size_t f = 0; f < all.size(); ++f) {
            double x = (*all[f])(i, j, k);
            double sc = s.of(static_cast<int>(f));
            if (static_cast<int>(f) > ndim + 1) {
                x *= w.rho(i, j, k);
                sc = s.rho;
            }
            t.v[f] += v * x;
            t.mag[f] += v * sc;
        }
    });
    return t;
}
bool clipped(Problem const& p, Global const& fx)
{
    bool r = false;
    for_each(fx, [&](int i, int j, int k) {
        if (ref::inside(p.m, {i, j, k})) {
            double const x = fx(i, j, k);
            r = r || x <= 0 || x >= 1;
        }
    });
    return r;
}
void require_totals(Problem const& p, World& before, World& after, std::vector<double> const& gain, bool momentum, char const* what, std::vector<char> const& skip = {})
{
    Totals const a = totals(p, before);
    Totals const b = totals(p, after);
    for (int f = 0; f < static_cast<int>(a.v.size()); ++f) {
        if (f >= 1 && f <= ndim && !momentum) {
            continue;
        }
        if (f > ndim + 1 && (clipped(p, after.fx[f - ndim - 2]) || (!skip.empty() && skip[f - ndim - 2] != 0))) {
            continue;
        }
        double const want = a.v[f] + (gain.empty() ? 0. : gain[f]);
        REQUIRE(pbt::close(b.v[f], want, step_tol() / 10, a.mag[f]), what, ": total ", field_name(f), "[", f, "] was ", a.v[f], ", is ", b.v[f], ", expected ", want, " (scale ", a.mag[f], ")");
    }
}
// the reference tells whether all intermediate states of some steps are physical
bool physical(Problem p, int steps, std::vector<char>& clip)
{
    clip.assign(p.nfx, 0);
    for (int n = 0; n < steps; ++n) {
        ref::Reference r(p);
        World w = r.run();
        if (!r.valid) {
            return false;
        }
        p.w = w;
        for (int f = 0; f < p.nfx; ++f) {
            clip[f] |= clipped(p, w.fx[f]) ? 1 : 0;
        }
        fill_ghosts(p.w, p.m, p.bc);
        for (std::size_t k = 0; k < p.w.rho.v.size(); ++k) {
            if (!(p.w.rho.v[k] > 0)) {
                return false;
            }
        }
    }
    return true;
}

// anything inside, gas at rest along the boundary
void quiet(pbt::Case& c)
{
    ProblemOpt o;
    o.min_n = 5;
    o.max_n = std::max(o.max_n, 7);
    Problem p = random_problem(c, o);
    std::array<int, 3> const corner {p.m.ngh[0], p.m.ngh[1], p.m.ngh[2]};
    ref::Prim q = ref::to_prim(ref::get(p.w, corner), p.e);
    q.u = {0, 0, 0};
    bool const origin = spherical && p.m.x[0][p.m.ng] == 0;
    for_each(p.w.rho, [&](int i, int j, int k) {
        std::array<int, 3> const x {i, j, k};
        bool inner = true;
        for (int d = 0; d < ndim; ++d) {
            inner = inner && (origin || x[d] >= p.m.ng + 2) && x[d] < p.m.ng + p.m.nx[d] - 2;
        }
        if (!inner) {
            set_cell(p.w, i, j, k, q, p.e);
        }
    });
    p.dt = c.d(0.05, 0.4) * stability_limit(p);
    ref::Reference r(p);
    r.run();
    c.discard_if(!r.valid);
    c.nontrivial();
    World w = run_steps(p);
    World b = p.w;
    require_totals(p, b, w, {}, false, "gas at rest along the boundary");
}

} // namespace

// closed domain
PBT_TEST(periodic, 3)
{
    reset(c);
    if (spherical) {
        quiet(c);
        return;
    }
    int const n = c.i(1, 3);
    auto const dims = random_dims(c, n);
    ProblemOpt o;
    o.parts = dims;
    o.periodic = true;
    Problem const p = random_problem(c, o);
    int const steps = c.i(1, 3);
    c.note("steps=%d ranks=%d", steps, n);
    std::vector<char> clip;
    c.discard_if(!physical(p, steps, clip));
    c.nontrivial();
    World w = run_steps(p, steps, dims, c.below(100));
    World b = p.w;
    require_totals(p, b, w, {}, true, "closed domain", clip);
    if (n == 1) {
        check_faults();
    }
}

// walls on both sides of a mesh that is symmetric about them, or at the centre of a sphere
PBT_TEST(walls, 2)
{
    reset(c);
    if (spherical) {
        quiet(c);
        return;
    }
    ProblemOpt o;
    o.walls = true;
    o.uniform_mesh = true;
    Problem const p = random_problem(c, o);
    int const steps = c.i(1, 3);
    c.note("steps=%d", steps);
    std::vector<char> clip;
    c.discard_if(!physical(p, steps, clip));
    c.nontrivial();
    World w = run_steps(p, steps);
    World b = p.w;
    require_totals(p, b, w, {}, false, "walls", clip);
    check_faults();
}

// anything inside, gas at rest along the boundary
PBT_TEST(quiet_boundary, 3)
{
    reset(c);
    quiet(c);
    check_faults();
}

// open boundaries: the change is the flux through the boundary
PBT_TEST(open, 2)
{
    reset(c);
    ProblemOpt const o;
    Problem const p = random_problem(c, o);
    ref::Reference r(p);
    r.run();
    c.discard_if(!r.valid);
    c.nontrivial();
    World w = run_steps(p);
    World b = p.w;
    std::vector<double> gain(b.all().size(), 0.);
    for_each(p.w.rho, [&](int i, int j, int k) {
        for (int d = 0; d < ndim; ++d) {
            std::array<int, 3> const f {i, j, k};
            bool const low = f[d] == p.m.ngh[d];
            bool const high = f[d] == p.m.ngh[d] + p.m.nx[d];
            std::array<int, 3> in = f;
            in[d] = p.m.ngh[d];
            if (!(low || high) || !ref::inside(p.m, in)) {
                continue;
            }
            auto const t = r.through(d, f);
            double const a = (low ? 1 : -1) * p.dt * face_area(p.m, d, i, j, k);
            gain[0] += a * t.f.rho;
            for (int e = 0; e < ndim; ++e) {
                gain[1 + e] += a * t.f.m[e];
            }
            gain[ndim + 1] += a * t.f.E;
            for (int e = 0; e < p.nfx; ++e) {
                gain[ndim + 2 + e] += a * t.fx[e];
            }
        }
    });
    require_totals(p, b, w, gain, !spherical, "open domain");
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
