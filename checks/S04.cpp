// S04: passive scalars.
#include <pbt.hpp>

#include <step.hpp>

using namespace hz;

namespace {

Problem make(pbt::Case& c, int min_fx, std::array<int, 3> dims = {1, 1, 1})
{
    ProblemOpt o;
    o.max_fx = 3;
    o.gravity = true;
    o.parts = dims;
    Problem p = random_problem(c, o);
    while (p.nfx < min_fx) {
        ++p.nfx;
        p.w.fx.emplace_back(p.m);
        int const f = p.nfx - 1;
        pbt::u64 const salt = c.below(10000);
        for_each(p.w.rho, [&](int i, int j, int k) { p.w.fx[f](i, j, k) = hash01(salt, f, (i * 4096) + (j * 64) + k); });
    }
    fill_ghosts(p.w, p.m, p.bc);
    ref::Reference r(p);
    r.run();
    c.discard_if(!r.valid);
    c.nontrivial();
    return p;
}
void same_flow(Problem const& p, World& a, World& b, char const* what)
{
    for_each(a.rho, [&](int i, int j, int k) {
        if (!ref::inside(p.m, {i, j, k})) {
            return;
        }
        auto const x = a.all();
        auto const y = b.all();
        for (int f = 0; f < ndim + 2; ++f) {
            REQUIRE((*x[f])(i, j, k) == (*y[f])(i, j, k), what, ": the ", field_name(f), " of cell (", i, ",", j, ",", k, ") depends on the scalars: ", (*x[f])(i, j, k), " and ", (*y[f])(i, j, k));
        }
    });
}
void same_scalar(Problem const& p, Global const& a, Global const& b, double tol, std::string const& what)
{
    for_each(a, [&](int i, int j, int k) {
        if (ref::inside(p.m, {i, j, k})) {
            REQUIRE(pbt::close(a(i, j, k), b(i, j, k), tol, 1.), what, ": scalar of cell (", i, ",", j, ",", k, ") is ", a(i, j, k), " expected ", b(i, j, k));
        }
    });
}

} // namespace

PBT_TEST(bounds, 2)
{
    reset(c);
    Problem const p = make(c, 1);
    World w = run_steps(p, c.i(1, 2));
    for (int f = 0; f < p.nfx; ++f) {
        for_each(w.rho, [&](int i, int j, int k) {
            if (ref::inside(p.m, {i, j, k})) {
                double const x = w.fx[f](i, j, k);
                REQUIRE((x >= 0 && x <= 1) || !(w.rho(i, j, k) > 0) || std::isnan(w.rho(i, j, k)), "scalar ", f, " of cell (", i, ",", j, ",", k, ") is ", x);
            }
        });
    }
    check_faults();
}

PBT_TEST(passive, 2)
{
    reset(c);
    Problem const p = make(c, 1);
    Problem q = p;
    bool const none = c.b();
    q.nfx = none ? 0 : p.nfx;
    q.w.fx.resize(q.nfx, Global(p.m));
    for (auto& g : q.w.fx) {
        for (double& x : g.v) {
            x = 1 - (x / 3);
        }
    }
    World a = run_steps(p);
    World b = run_steps(q);
    same_flow(p, a, b, none ? "without scalars" : "with other scalars");
    check_faults();
}

// a scalar is treated in the same way whatever its position and its companions
PBT_TEST(independent, 2)
{
    reset(c);
    Problem const p = make(c, 2);
    auto const perm = random_perm(c, p.nfx);
    int const keep = c.i(1, p.nfx);
    Problem q = p;
    q.nfx = keep;
    q.w.fx.clear();
    for (int f = 0; f < keep; ++f) {
        q.w.fx.push_back(p.w.fx[perm[f]]);
    }
    World const a = run_steps(p);
    World const b = run_steps(q);
    for (int f = 0; f < keep; ++f) {
        same_scalar(p, b.fx[f], a.fx[perm[f]], 1e-12, pbt::cat("scalar ", perm[f], " moved to position ", f));
    }
    check_faults();
}

PBT_TEST(constant, 2)
{
    reset(c);
    Problem p = make(c, 1);
    std::vector<double> v;
    for (auto& g : p.w.fx) {
        v.push_back(c.pick({c.u01(), 0., 1.}));
        std::fill(g.v.begin(), g.v.end(), v.back());
    }
    World const w = run_steps(p);
    for (int f = 0; f < p.nfx; ++f) {
        same_scalar(p, w.fx[f], p.w.fx[f], 1e-9, pbt::cat("constant scalar ", v[f]));
    }
    check_faults();
}

// f and 1 - f
PBT_TEST(complement, 2)
{
    reset(c);
    Problem const p = make(c, 1);
    Problem q = p;
    for (auto& g : q.w.fx) {
        for (double& x : g.v) {
            x = 1 - x;
        }
    }
    World const a = run_steps(p);
    World b = run_steps(q);
    for (int f = 0; f < p.nfx; ++f) {
        for (double& x : b.fx[f].v) {
            x = 1 - x;
        }
        same_scalar(p, b.fx[f], a.fx[f], 1e-8, "complement");
    }
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
