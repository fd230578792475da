// S07: the stability limit.
#include <pbt.hpp>

#include <step.hpp>

using namespace hz;

namespace {

double limit_of(Problem const& p, int layers, std::array<int, 3> dims, pbt::u64 seed)
{
    int const n = dims[0] * dims[1] * dims[2];
    std::vector<double> got(n, 0.);
    auto const body = [&](int r) {
        Grid grid(p.m.nx, dims, p.m.ng);
        set_grid(grid, p.m);
        Local a(grid, 0);
        World in = p.w;
        load(grid, in, a);
        EOS const eos(p.e.gamma, p.e.mu);
        auto const& e = grid.Nx_local_wg;
        KV_double_4d const u("u", e[0], e[1], e[2], ndim);
        KV_double_3d const P("P", e[0], e[1], e[2]);
        hclpp::conv_cons_to_prim(grid.range.all_ghosts(), eos, a.rho, a.rhou, a.E, u, P);
        auto const range = layers == 0 ? grid.range.no_ghosts() : layers < p.m.ng ? grid.range.with_ghosts(layers) : grid.range.all_ghosts();
        got[r] = hclpp::time_step(range, eos, grid, a.rho, u, P);
    };
    if (n == 1) {
        body(0);
    } else {
        ranks(n, body, seed);
    }
    for (double const x : got) {
        REQUIRE(x == got[0], "processes disagree on the time step: ", x, " and ", got[0]);
    }
    return got[0];
}

} // namespace

PBT_TEST(limit, 4)
{
    reset(c);
    kstub::st().reduce_chunks = c.i(0, 3);
    int const n = c.chance(1, 2) ? c.i(2, 6) : 1;
    auto const dims = random_dims(c, n);
    ProblemOpt o;
    o.max_fx = 0;
    o.parts = dims;
    o.max_mach = c.pick({1., 0., 10.});
    Problem p = random_problem(c, o);
    // one cell stands out: the limit must see every cell
    if (c.b()) {
        std::array<int, 3> x {};
        for (int d = 0; d < 3; ++d) {
            x[d] = c.i(0, p.w.rho.n[d] - 1);
        }
        ref::Prim q = ref::to_prim(ref::get(p.w, x), p.e);
        int const d = c.i(0, ndim - 1);
        q.u[d] = p.e.sound(q.rho, q.P) * c.pick({30., -30.});
        set_cell(p.w, x[0], x[1], x[2], q, p.e);
        c.note("fast cell (%d,%d,%d)", x[0], x[1], x[2]);
    }
    int const layers = c.i(0, p.m.ng);
    c.note("ghost layers=%d ranks=%d", layers, n);
    c.nontrivial();
    // ghosts of a process are the interior of others: only layers outside of the domain count in addition
    double want = stability_limit(p, layers);
    double const got = limit_of(p, layers, dims, c.below(100));
    REQUIRE(pbt::close(got, want, perfect_gas ? 1e-10 : 1e-6), "time step ", got, " expected ", want);
    if (n == 1) {
        check_faults();
    }
}

PBT_TEST(units_of_measure, 1)
{
    reset(c);
    if (!perfect_gas) { // the constants of the radiation set the units
        c.nontrivial(false);
        return;
    }
    ProblemOpt o;
    o.max_fx = 0;
    Problem p = random_problem(c, o);
    double const L = spherical || c.b() ? c.logd(1e-3, 1e3) : 1;
    double const V = c.logd(1e-3, 1e3);
    Problem q = p;
    for (int d = 0; d < (spherical ? 1 : ndim); ++d) {
        for (double& x : q.m.x[d]) {
            x *= L;
        }
    }
    for_each(p.w.rho, [&](int i, int j, int k) {
        ref::Prim s = ref::to_prim(ref::get(p.w, {i, j, k}), p.e);
        for (double& x : s.u) {
            x *= V;
        }
        s.P *= V * V;
        set_cell(q.w, i, j, k, s, p.e);
    });
    c.nontrivial();
    double const a = limit_of(p, p.m.ng, {1, 1, 1}, 0);
    double const b = limit_of(q, p.m.ng, {1, 1, 1}, 0);
    REQUIRE(pbt::close(b, a * L / V, 1e-9), "lengths times ", L, " and velocities times ", V, " turn ", a, " into ", b);
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
