// S06: the safeguard of the internal energy (pressure fix).
#include <pbt.hpp>

#include <step.hpp>

using namespace hz;

namespace {

double ratio(Problem const& p, int i, int j, int k)
{
    ref::Cons const q = ref::get(p.w, {i, j, k});
    double const ek = ref::ekin(q);
    return ek > 0 ? (q.E - ek) / (p.eps * ek) : 1e300;
}

void safeguard_case(pbt::Case& c, std::array<int, 3> dims)
{
    ProblemOpt o;
    o.gravity = true;
    o.max_mach = c.pick({5., 1., 20.});
    o.parts = dims;
    Problem p = random_problem(c, o);
    p.eps = c.pick({1., 0.1, 10., 0.01, 1000.});
    p.fix = true;
    c.note("eps=%g", p.eps);
    ref::Reference r(p);
    World want = r.run();
    c.discard_if(!r.valid);
    int cold = 0;
    bool edge = false;
    for_each(p.w.rho, [&](int i, int j, int k) {
        if (ref::inside(p.m, {i, j, k})) {
            double const x = ratio(p, i, j, k);
            cold += x < 1 ? 1 : 0;
            edge = edge || std::abs(x - 0.1) < 1e-7 || std::abs(x - 1) < 1e-7;
        }
    });
    c.discard_if(edge);
    c.label(cold == 0 ? "hot" : cold == p.m.nx[0] * p.m.nx[1] * p.m.nx[2] ? "cold" : "mixed");
    c.nontrivial(cold > 0);
    Problem off = p;
    off.fix = false;
    World on = run_steps(p, 1, dims, 1);
    World no = run_steps(off, 1, dims, 1);
    for_each(p.w.rho, [&](int i, int j, int k) {
        if (!ref::inside(p.m, {i, j, k})) {
            return;
        }
        auto const x = on.all();
        auto const y = no.all();
        for (std::size_t f = 0; f < x.size(); ++f) {
            if (static_cast<int>(f) == ndim + 1 && ratio(p, i, j, k) < 1) {
                continue;
            }
            REQUIRE((*x[f])(i, j, k) == (*y[f])(i, j, k), "the safeguard changes the ", field_name(static_cast<int>(f)), " of cell (", i, ",", j, ",", k, ") whose internal energy is ", ratio(p, i, j, k), " times the threshold");
        }
    });
    require_same(on, want, p.m, magnitude(p), step_tol(), "after one step with the safeguard");
}

} // namespace

PBT_TEST(serial, 4)
{
    reset(c);
    safeguard_case(c, {1, 1, 1});
    check_faults();
}
PBT_TEST(decomposed, 1)
{
    reset(c);
    safeguard_case(c, random_dims(c, c.i(2, 3)));
}

// cold uniform gas in uniform motion
PBT_TEST(uniform_motion, 1)
{
    reset(c);
    if (spherical) {
        safeguard_case(c, {1, 1, 1});
        return;
    }
    ProblemOpt o;
    o.amp = 1e-12;
    o.max_mach = c.pick({5., 100.});
    o.periodic = true;
    Problem p = random_problem(c, o);
    ref::Prim const q = ref::to_prim(ref::get(p.w, {p.m.ngh[0], p.m.ngh[1], p.m.ngh[2]}), p.e);
    for_each(p.w.rho, [&](int i, int j, int k) { set_cell(p.w, i, j, k, q, p.e); });
    p.fix = true;
    p.eps = c.logd(0.01, 100.);
    p.nfx = 0;
    p.w.fx.clear();
    p.dt = c.d(0., 0.5) * stability_limit(p);
    c.nontrivial();
    World w = run_steps(p, c.i(1, 3));
    World b = p.w;
    require_same(w, b, p.m, magnitude(p), 1e-8, "uniform motion with the safeguard");
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
