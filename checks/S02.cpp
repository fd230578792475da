// S02: equilibria stay as they are.
#include <pbt.hpp>

#include <step.hpp>

using namespace hz;

namespace {

void uniform(Problem& p, ref::Prim const& q, std::vector<double> const& fx)
{
    for_each(p.w.rho, [&](int i, int j, int k) {
        set_cell(p.w, i, j, k, q, p.e);
        for (int f = 0; f < p.nfx; ++f) {
            p.w.fx[f](i, j, k) = fx[f];
        }
    });
}
double equil_tol()
{
    return perfect_gas ? 1e-10 : 1e-6;
}

} // namespace

PBT_TEST(uniform_gas, 4)
{
    reset(c);
    int const n = c.i(1, 3);
    auto const dims = random_dims(c, n);
    ProblemOpt o;
    o.amp = 1e-12;
    o.parts = dims;
    Problem p = random_problem(c, o);
    ref::Prim q = ref::to_prim(ref::get(p.w, {p.m.ngh[0], p.m.ngh[1], p.m.ngh[2]}), p.e);
    bool const moving = !spherical && c.chance(2, 3);
    for (int d = 0; d < ndim; ++d) {
        if (!moving || p.bc[d][0] == Bc::Reflexive || p.bc[d][1] == Bc::Reflexive) {
            q.u[d] = 0;
        }
    }
    std::vector<double> fx;
    for (int f = 0; f < p.nfx; ++f) {
        fx.push_back(c.pick({0., 1., c.u01()}));
    }
    p.fix = c.b();
    p.eps = c.logd(1e-4, 100.);
    uniform(p, q, fx);
    p.dt = c.d(0., 0.6) * stability_limit(p);
    int const steps = c.i(1, 3);
    c.note("steps=%d ranks=%d moving=%d safeguard=%d eps=%g", steps, n, moving, p.fix, p.eps);
    c.label(moving ? "moving" : "at rest");
    c.nontrivial();
    World w = run_steps(p, steps, dims, c.below(100));
    World b = p.w;
    require_same(w, b, p.m, magnitude(p), equil_tol(), "uniform gas");
    if (n == 1) {
        check_faults();
    }
}

// contacts at rest: any density under uniform pressure
PBT_TEST(contacts, 2)
{
    reset(c);
    ProblemOpt o;
    o.velocities = false;
    Problem p = random_problem(c, o);
    p.solver = c.i(1, 2); // the solvers that resolve contacts
    ref::Prim const q0 = ref::to_prim(ref::get(p.w, {p.m.ngh[0], p.m.ngh[1], p.m.ngh[2]}), p.e);
    for_each(p.w.rho, [&](int i, int j, int k) {
        ref::Prim q = q0;
        q.rho = p.w.rho(i, j, k);
        set_cell(p.w, i, j, k, q, p.e);
    });
    p.dt = c.d(0., 0.5) * stability_limit(p);
    c.nontrivial();
    World w = run_steps(p);
    World b = p.w;
    require_same(w, b, p.m, magnitude(p), equil_tol(), "contacts at rest");
    check_faults();
}

PBT_TEST(no_time, 2)
{
    reset(c);
    ProblemOpt o;
    o.gravity = true;
    Problem p = random_problem(c, o);
    p.dt = 0;
    p.fix = c.b() && false;
    ref::Reference r(p);
    r.run();
    c.discard_if(!r.valid);
    c.nontrivial();
    World w = run_steps(p, c.i(1, 2));
    World b = p.w;
    require_same(w, b, p.m, magnitude(p), 1e-13, "step of zero duration");
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
