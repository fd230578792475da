// G01: the gravity fields.
#include <pbt.hpp>

#include <masses.hpp>
#include <states.hpp>
#include <world.hpp>

using namespace hz;

namespace {

// G as the code has it, checked against the recommended value
double big_g()
{
    return hclpp::units::G;
}
MeshOpt opts(pbt::Case& c, std::array<int, 3> dims)
{
    MeshOpt o;
    o.max_n = 8;
    o.ng_min = c.i(1, 3);
    o.ng_max = o.ng_min;
    o.parts = dims;
    return o;
}
Global random_density(pbt::Case& c, Mesh const& m)
{
    Global rho(m);
    double const scale = c.logd(1e-3, 1e3);
    double const contrast = c.pick({10., 1., 1e4});
    pbt::u64 const salt = c.below(1 << 20);
    pbt::u64 n = 0;
    for (double& x : rho.v) {
        double const u = static_cast<double>(pbt::mix(salt * 977 + ++n) >> 11) / 9007199254740992.;
        x = scale * std::pow(contrast, u);
    }
    return rho;
}
std::vector<double> self_gravity(Mesh const& m, Global const& rho, double central, std::array<int, 3> dims, pbt::u64 seed, std::vector<int> perm = {})
{
    int const n = dims[0] * dims[1] * dims[2];
    std::vector<std::vector<double>> got(n);
    auto const body = [&](int r) {
        Grid grid(m.nx, dims, m.ng);
        set_grid(grid, m);
        auto const& e = grid.Nx_local_wg;
        KV_double_3d const d("rho", e[0], e[1], e[2]);
        auto const lo = grid.range.Corner_min;
        fill3(d, [&](int i, int j, int k) { return rho(lo[0] + i, lo[1] + j, lo[2] + k); });
        auto const g = hclpp::make_internal_mass_gravity(central, grid, d);
        for (int i = 0; i < e[0]; ++i) {
            got[r].push_back(g(i, grid.Nghost[1], grid.Nghost[2], 0));
        }
        for (int i = 0; i < e[0]; ++i) {
            for (int j = 0; j < e[1]; ++j) {
                for (int k = 0; k < e[2]; ++k) {
                    REQUIRE(g(i, j, k, 0) == got[r][i], "radial gravity differs within a shell");
                    for (int d = 1; d < ndim; ++d) {
                        REQUIRE(g(i, j, k, d) == 0, "self gravity has a tangential component ", g(i, j, k, d));
                    }
                }
            }
        }
    };
    if (n == 1) {
        body(0);
    } else {
        ranks(n, body, seed, perm);
        for (auto const& x : got) {
            REQUIRE(x.size() == got[0].size(), "sizes");
            for (std::size_t i = 0; i < x.size(); ++i) {
                REQUIRE(pbt::close(x[i], got[0][i], 1e-12), "processes disagree on the gravity of shell ", i, ": ", x[i], " and ", got[0][i]);
            }
        }
    }
    check_faults();
    return got[0];
}

} // namespace

PBT_TEST(uniform, 1)
{
    reset(c);
    std::array<double, 3> g {};
    for (double& x : g) {
        x = c.chance(1, 5) ? 0. : c.sym(1) * c.logd(1e-3, 1e4);
    }
    c.nontrivial();
    c.note("g=%g,%g,%g", g[0], g[1], g[2]);
    auto const f = hclpp::make_uniform_gravity(g[0], g[1], g[2]);
    for (int r = 0; r < 4; ++r) {
        int const i = c.i(0, 1000);
        int const j = c.i(0, 1000);
        int const k = c.i(0, 1000);
        for (int d = 0; d < 3; ++d) {
            REQUIRE(f(i, j, k, d) == g[d], "uniform gravity in direction ", d, " is ", f(i, j, k, d), " instead of ", g[d]);
        }
    }
    check_faults();
}

PBT_TEST(point_mass, 2)
{
    reset(c);
    REQUIRE(pbt::close(big_g(), si::G, 5e-6), "gravitational constant ", big_g());
    int const n = c.chance(1, 3) ? c.i(2, 4) : 1;
    auto const dims = random_dims(c, n);
    Mesh const m = random_mesh(c, opts(c, dims));
    double const M = c.chance(1, 8) ? 0. : c.logd(1e-6, 1e31);
    c.note("%s M=%g ranks=%d", show(m).c_str(), M, n);
    c.nontrivial(M != 0);
    auto const body = [&](int) {
        Grid grid(m.nx, dims, m.ng);
        set_grid(grid, m);
        auto const g = hclpp::make_point_mass_gravity(M, grid);
        int const lo = grid.range.Corner_min[0];
        for (int i = 0; i < grid.Nx_local_wg[0]; ++i) {
            double const x = centre(m, lo + i);
            REQUIRE(pbt::close(g(i, 1, 2, 0), -si::G * M / x / x, 5e-6), "gravity at ", x, " is ", g(i, 1, 2, 0));
            // and exactly the inverse square of the radius
            REQUIRE(pbt::close(g(i, 0, 0, 0) * x * x, -big_g() * M, 1e-12), "gravity at ", x, " is ", g(i, 0, 0, 0));
            for (int d = 1; d < 3; ++d) {
                REQUIRE(g(i, 3, 1, d) == 0, "tangential gravity ", g(i, 3, 1, d));
            }
        }
    };
    if (n == 1) {
        body(0);
    } else {
        ranks(n, body, c.below(1000));
    }
    check_faults();
}

PBT_TEST(self_gravity, 4)
{
    reset(c);
    int const n = ndim > 1 && c.b() ? c.i(2, 6) : 1;
    auto dims = random_dims(c, n);
    dims[1] *= dims[0];
    dims[0] = 1;
    if (ndim == 1) {
        dims = {1, 1, 1};
    }
    Mesh const m = random_mesh(c, opts(c, dims));
    Global const rho = random_density(c, m);
    double const scale = rho.v[0] * std::pow(std::abs(m.x[0].back()), 3);
    double const central = c.chance(1, 3) ? 0. : scale * c.logd(1e-4, 1e4);
    c.note("%s central=%g grid=%dx%dx%d rho[0]=%g", show(m).c_str(), central, dims[0], dims[1], dims[2], rho.v[0]);
    c.label(pbt::cat("ranks", n));
    c.nontrivial();
    auto const g = self_gravity(m, rho, central, dims, c.below(1000), random_perm(c, n));
    auto const mass = enclosed(m, rho, central);
    long double biggest = 0;
    for (auto const x : mass) {
        biggest = std::max(biggest, std::abs(x));
    }
    for (std::size_t i = 0; i < g.size(); ++i) {
        double const x = centre(m, i);
        double const got = g[i] * x * x / -big_g();
        REQUIRE(pbt::close(got, static_cast<double>(mass[i]), 1e-11, 1e-2 * static_cast<double>(biggest)), "mass within r=", x, " (cell ", i, ") is ", got, " instead of ", static_cast<double>(mass[i]), " (central mass ", central, ")");
    }
}

// only the shell averages matter, and masses add up
PBT_TEST(shells, 1)
{
    reset(c);
    Mesh const m = random_mesh(c, opts(c, {1, 1, 1}));
    Global const rho = random_density(c, m);
    auto const mean = shell_means(m, rho);
    Global smooth(m);
    for_each(smooth, [&](int i, int j, int k) { smooth(i, j, k) = static_cast<double>(mean[i]); });
    double const central = rho.v[0] * c.logd(1e-3, 1e3);
    c.note("%s central=%g", show(m).c_str(), central);
    c.nontrivial();
    auto const a = self_gravity(m, rho, central, {1, 1, 1}, 0);
    auto const b = self_gravity(m, smooth, central, {1, 1, 1}, 0);
    auto const none = self_gravity(m, rho, 0, {1, 1, 1}, 0);
    auto const only = self_gravity(m, Global(m), central, {1, 1, 1}, 0);
    for (std::size_t i = 0; i < a.size(); ++i) {
        REQUIRE(pbt::close(a[i], b[i], 1e-10, std::abs(a[i]) + std::abs(none[i])), "gravity of shell ", i, " depends on the angular distribution: ", a[i], " and ", b[i]);
        REQUIRE(pbt::close(a[i], none[i] + only[i], 1e-10, std::abs(none[i]) + std::abs(only[i])), "central mass and gas do not add up in shell ", i);
    }
    // gas outside a shell has no influence on it
    Global cut = rho;
    int const from = c.i(m.ngh[0], rho.n[0] - 1);
    for_each(cut, [&](int i, int j, int k) {
        if (i > from) {
            cut(i, j, k) *= 7;
        }
    });
    auto const d = self_gravity(m, cut, central, {1, 1, 1}, 0);
    for (int i = 0; i <= from; ++i) {
        REQUIRE(pbt::close(a[i], d[i], 1e-12), "gravity of shell ", i, " depends on the gas of shell ", from + 1, " and beyond");
    }
}

// the radial direction cannot be distributed
PBT_TEST(refusal, 0.2)
{
    reset(c);
    std::array<int, 3> dims {c.i(2, 3), 1, 1};
    Mesh const m = random_mesh(c, opts(c, dims));
    c.nontrivial();
    auto const o = ranks_outcome(dims[0], [&](int) {
        Grid grid(m.nx, dims, m.ng);
        set_grid(grid, m);
        auto const& e = grid.Nx_local_wg;
        KV_double_3d const d("rho", e[0], e[1], e[2]);
        fill_all(d, 1.);
        hclpp::make_internal_mass_gravity(1, grid, d);
    });
    REQUIRE(!o.ok() && !o.deadlock, "self gravity with several processes along the radius is accepted or hangs");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
