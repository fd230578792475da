// C03: every supported name selects the scheme it names, any other name is refused.
#include <grid_factory.hpp>
#include <grid_type.hpp>
#include <user_step.hpp>
#include <user_step_factory.hpp>

#include <pbt.hpp>

#include <names.hpp>
#include <step.hpp>

using namespace hz;

namespace {

std::vector<std::string> const families[] = {
        {"HLL", "HLLC", "Low Mach"},
        {"Constant", "VanLeer", "Minmod", "VanAlbada"},
        {"NullGradient", "Periodic", "Reflexive"},
        {"Regular"},
        {"Off", "Heat_nickel"},
};
char const* const family_names[] = {"Riemann solver", "reconstruction", "boundary condition", "grid type", "user step"};

bool accepted(int family, std::string const& name)
{
    try {
        switch (family) {
        case 0:
            return hclpp::factory_godunov_scheme<EOS, FieldGravity>(name, EOS(5. / 3, 1.)) != nullptr;
        case 1:
            return hclpp::factory_face_reconstruction(name) != nullptr;
        case 2:
            return hclpp::factory_boundary_construction<FieldGravity>(name, 0, 0) != nullptr;
        case 3:
            return hclpp::factory_grid_type(name, make_param("")) != nullptr;
        default:
            return hclpp::factory_user_step(name) != nullptr;
        }
    } catch (std::exception const&) {
        return false;
    }
}

} // namespace

PBT_TEST(near_misses, 3)
{
    reset(0);
    int const family = c.i(0, 4);
    auto const& valid = families[family];
    std::string s = near_miss(c, valid);
    if (c.chance(1, 6)) {
        s = c.b() ? " " + c.pick(valid) : c.pick(valid) + c.pick({" ", "\n", "\t"});
    }
    bool const ok = std::find(valid.begin(), valid.end(), s) != valid.end();
    c.note("%s '%s'", family_names[family], s.c_str());
    c.nontrivial(!ok);
    REQUIRE(accepted(family, s) == ok, family_names[family], " '", s, ok ? "' is refused" : "' is accepted");
}

// a step with named solver and reconstruction is the step of the reference with these schemes and no others
PBT_TEST(schemes, 1)
{
    reset(c);
    ProblemOpt o;
    o.max_fx = 1;
    Problem p = random_problem(c, o);
    ref::Reference r(p);
    World want = r.run();
    c.discard_if(!r.valid);
    Mag const mag = magnitude(p);
    World got = run_steps(p);
    require_same(got, want, p.m, mag, step_tol(), pbt::cat("solver ", solver_names[p.solver], " with reconstruction ", limiter_names[p.limiter]));
    // nontrivial when no other pair of schemes gives this result
    bool alone = true;
    for (int s = 0; s < nsolvers; ++s) {
        for (int l = 0; l < nlimiters; ++l) {
            if (s == p.solver && l == p.limiter) {
                continue;
            }
            Problem q = p;
            q.solver = s;
            q.limiter = l;
            ref::Reference rq(q);
            World w = rq.run();
            bool same = rq.valid;
            auto const a = want.all();
            auto const b = w.all();
            for_each(want.rho, [&](int i, int j, int k) {
                for (std::size_t f = 0; f < a.size(); ++f) {
                    same = same && pbt::close((*a[f])(i, j, k), (*b[f])(i, j, k), 1e-7, mag.of(static_cast<int>(f)));
                }
            });
            alone = alone && !same;
        }
    }
    c.nontrivial(alone);
    check_faults();
}

// the three kinds of faces, through the driver of the boundary conditions
PBT_TEST(faces, 1)
{
    reset(c);
    MeshOpt mo;
    mo.ng_min = 1;
    mo.fill = true;
    Mesh const m = random_mesh(c, mo);
    int const nfx = c.i(0, 2);
    auto const bc = random_bcs(c);
    pbt::u64 const salt = c.below(1000000);
    World w(m, nfx);
    int f0 = 0;
    for (Global* const g : w.all()) {
        for_each(*g, [&](int i, int j, int k) { (*g)(i, j, k) = 1 + hash01(salt, f0, (i * 4096) + (j * 64) + k); });
        ++f0;
    }
    fill_ghosts(w, m, bc);
    auto const all = w.all();
    c.note("%s %s nfx=%d", show(m).c_str(), show(bc).c_str(), nfx);
    c.nontrivial();
    hclpp::Param prm = make_param("");
    prm.nfx = nfx;
    Grid g(m.nx, {1, 1, 1}, m.ng);
    set_grid(g, m);
    Local const l(g, nfx);
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < l.nf(); ++f) {
            l.at(f, i, j, k) = interior(g, i, j, k) ? (*all[f])(i, j, k) : 1e30;
        }
    });
    hclpp::DistributedBoundaryCondition const bcs(g, prm);
    bcs(make_bcs(bc), g, no_gravity(), l.rho, l.rhou, l.E, l.fx);
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < l.nf(); ++f) {
            REQUIRE(l.at(f, i, j, k) == (*all[f])(i, j, k), field_name(f), " of cell (", i, ",", j, ",", k, ") is ", l.at(f, i, j, k), " instead of ", (*all[f])(i, j, k), " with ", show(bc));
        }
    });
    check_faults();
}

// the regular grid of the file's bounds
PBT_TEST(regular_grid, 1)
{
    reset(0);
    std::string text = "[Grid]\n";
    std::array<double, 3> lo {0, 0, 0};
    std::array<double, 3> hi {1, 1, 1};
    std::array<int, 3> n {1, 1, 1};
    std::array<int, 3> ng {0, 0, 0};
    int const g = c.i(1, 4);
    for (int d = 0; d < 3; ++d) {
        n[d] = d < ndim ? c.i(1, 40) : 1;
        ng[d] = d < ndim ? g : 0;
        if (c.chance(3, 4)) {
            lo[d] = c.sym(5.);
            text += pbt::cat("x", d, "min = ", lo[d], "\n");
        }
        if (c.chance(3, 4) || !(lo[d] < hi[d])) {
            hi[d] = lo[d] + c.logd(0.01, 100.);
            text += pbt::cat("x", d, "max = ", hi[d], "\n");
        }
    }
    c.note("%s", text.c_str());
    c.nontrivial();
    hclpp::Param const p = make_param(text);
    lo = {p.x0min, p.x1min, p.x2min};
    hi = {p.x0max, p.x1max, p.x2max};
    auto const type = hclpp::factory_grid_type("Regular", p);
    std::array<hclpp::KVH_double_1d, 3> x;
    for (int d = 0; d < 3; ++d) {
        x[d] = hclpp::KVH_double_1d("x", n[d] + (2 * ng[d]) + 1);
    }
    type->execute(ng, n, x[0], x[1], x[2]);
    for (int d = 0; d < 3; ++d) {
        for (int i = 0; i < x[d].extent_int(0); ++i) {
            double const want = lo[d] + ((hi[d] - lo[d]) * (i - ng[d]) / n[d]);
            REQUIRE(pbt::close(x[d](i), want, 1e-12, std::abs(lo[d]) + std::abs(hi[d]) + (hi[d] - lo[d])), "face ", i, " of direction ", d, " is at ", x[d](i), " instead of ", want);
        }
    }
    check_faults();
}

// no heating without the name of the heating
PBT_TEST(user_steps, 1)
{
    reset(c);
    MeshOpt o;
    Mesh const m = random_mesh(c, o);
    Grid const g(m.nx, {1, 1, 1}, m.ng);
    Local const l(g, 1);
    bool const heat = c.b();
    double const t = c.d(0., 100.) * 86400;
    double const dt = c.d(1., 100.);
    c.note("%s t=%g dt=%g", heat ? "Heat_nickel" : "Off", t, dt);
    c.nontrivial();
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < l.nf(); ++f) {
            l.at(f, i, j, k) = 1 + hash01(7, f, (i * 4096) + (j * 64) + k);
        }
    });
    hclpp::factory_user_step(heat ? "Heat_nickel" : "Off")->execute(g.range.no_ghosts(), t, dt, l.rho, l.E, l.fx);
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < l.nf(); ++f) {
            double const was = 1 + hash01(7, f, (i * 4096) + (j * 64) + k);
            bool const more = heat && f == ndim + 1 && interior(g, i, j, k);
            REQUIRE(more ? l.at(f, i, j, k) > was : l.at(f, i, j, k) == was, heat ? "Heat_nickel" : "Off", ": ", field_name(f), " goes from ", was, " to ", l.at(f, i, j, k));
        }
    });
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
