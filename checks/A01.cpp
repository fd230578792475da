// A01: totals, minimum internal energy and temperature.
#include <integration.hpp>
#include <internal_energy.hpp>
#include <pbt.hpp>
#include <temperature.hpp>

#include <states.hpp>
#include <world.hpp>

using namespace hz;

namespace {

double const nan_v = std::numeric_limits<double>::quiet_NaN();
double const inf_v = std::numeric_limits<double>::infinity();

double unit(pbt::u64 salt, pbt::u64 n)
{
    return static_cast<double>(pbt::mix(salt * 977 + n) >> 11) / 9007199254740992.;
}
struct Setup
{
    Mesh m;
    std::array<int, 3> dims;
    int n;
    pbt::u64 seed;
    std::vector<int> perm;
};
Setup setup(pbt::Case& c)
{
    reset(c);
    kstub::st().reduce_chunks = c.i(0, 4);
    Setup s;
    s.n = c.chance(2, 3) ? c.i(2, 6) : 1;
    s.dims = random_dims(c, s.n);
    MeshOpt o;
    o.ng_min = 1;
    o.parts = s.dims;
    s.m = random_mesh(c, o);
    s.seed = c.below(1000);
    s.perm = random_perm(c, s.n);
    c.label(pbt::cat("ranks", s.n));
    return s;
}
bool in(Mesh const& m, int i, int j, int k)
{
    std::array<int, 3> const p {i, j, k};
    for (int d = 0; d < 3; ++d) {
        if (p[d] < m.ngh[d] || p[d] >= m.ngh[d] + m.nx[d]) {
            return false;
        }
    }
    return true;
}
template <class F>
std::vector<double> everywhere(Setup const& s, F f)
{
    std::vector<double> got(s.n);
    auto const body = [&](int r) {
        Grid grid(s.m.nx, s.dims, s.m.ng);
        set_grid(grid, s.m);
        got[r] = f(grid);
    };
    if (s.n == 1) {
        body(0);
    } else {
        ranks(s.n, body, s.seed, s.perm);
    }
    check_faults();
    for (double const x : got) {
        REQUIRE(x == got[0] || (std::isnan(x) && std::isnan(got[0])), "processes disagree: ", x, " and ", got[0]);
    }
    return got;
}
KV_double_3d slice(Grid const& grid, Global const& g)
{
    auto const& e = grid.Nx_local_wg;
    KV_double_3d const d("x", e[0], e[1], e[2]);
    auto const lo = grid.range.Corner_min;
    fill3(d, [&](int i, int j, int k) { return g(lo[0] + i, lo[1] + j, lo[2] + k); });
    return d;
}

} // namespace

PBT_TEST(total, 3)
{
    Setup const s = setup(c);
    Global x(s.m);
    double const scale = c.logd(1e-3, 1e3);
    bool const positive = c.b();
    bool const one = c.chance(1, 4); // a single cell
    double const outside = c.pick({1e30, nan_v, -1., 0.});
    pbt::u64 const salt = c.below(1 << 20);
    pbt::u64 n = 0;
    for_each(x, [&](int i, int j, int k) {
        ++n;
        x(i, j, k) = !in(s.m, i, j, k) ? outside : one ? 0. : scale * (positive ? unit(salt, n) : (2 * unit(salt, n)) - 1);
    });
    if (one) {
        x(s.m.ngh[0] + c.i(0, s.m.nx[0] - 1), s.m.ngh[1] + c.i(0, s.m.nx[1] - 1), s.m.ngh[2] + c.i(0, s.m.nx[2] - 1)) = scale;
    }
    c.note("%s grid=%dx%dx%d %s", show(s.m).c_str(), s.dims[0], s.dims[1], s.dims[2], one ? "single cell" : "field");
    c.nontrivial();
    auto const got = everywhere(s, [&](Grid& g) { return hclpp::integrate(g.range.no_ghosts(), g, slice(g, x)); });
    long double sum = 0;
    long double mag = 0;
    for_each(x, [&](int i, int j, int k) {
        if (in(s.m, i, j, k)) {
            long double const v = cell_volume(s.m, i, j, k);
            sum += v * x(i, j, k);
            mag += v * std::abs(x(i, j, k));
        }
    });
    REQUIRE(pbt::close(got[0], static_cast<double>(sum), 1e-11, static_cast<double>(mag)), "integral is ", got[0], " instead of ", static_cast<double>(sum));
}

PBT_TEST(minimum, 3)
{
    Setup const s = setup(c);
    World w(s.m, 0);
    pbt::u64 const salt = c.below(1 << 20);
    double const mach = c.pick({0.5, 0., 20.});
    double const outside = c.pick({-1e30, nan_v, 1e30});
    pbt::u64 n = 0;
    auto const ev = [&](int i, int j, int k) {
        double e = w.E(i, j, k);
        for (int d = 0; d < ndim; ++d) {
            e -= w.rhou[d](i, j, k) * w.rhou[d](i, j, k) / w.rho(i, j, k) / 2;
        }
        return e;
    };
    for_each(w.rho, [&](int i, int j, int k) {
        n += 8;
        if (!in(s.m, i, j, k)) {
            w.rho(i, j, k) = outside;
            w.E(i, j, k) = outside;
            return;
        }
        w.rho(i, j, k) = 0.1 + (3 * unit(salt, n));
        w.E(i, j, k) = std::pow(10., (4 * unit(salt, n + 1)) - 2);
        for (int d = 0; d < ndim; ++d) {
            w.rhou[d](i, j, k) = w.rho(i, j, k) * mach * ((2 * unit(salt, n + 2 + d)) - 1);
            w.E(i, j, k) += w.rhou[d](i, j, k) * w.rhou[d](i, j, k) / w.rho(i, j, k) / 2;
        }
    });
    // one cell is special
    int const i = s.m.ngh[0] + c.i(0, s.m.nx[0] - 1);
    int const j = s.m.ngh[1] + c.i(0, s.m.nx[1] - 1);
    int const k = s.m.ngh[2] + c.i(0, s.m.nx[2] - 1);
    int const kind = c.i(0, 5);
    switch (kind) {
    case 1: // the smallest one, still positive
        w.E(i, j, k) -= ev(i, j, k) * (1 - 1e-4);
        break;
    case 2: // negative
        w.E(i, j, k) -= ev(i, j, k) * (1 + c.logd(1e-6, 100.));
        break;
    case 3: { // not a number
        int const f = c.i(0, ndim + 1);
        (f == 0 ? w.rho : f <= ndim ? w.rhou[f - 1] : w.E)(i, j, k) = nan_v;
        break;
    }
    case 4: // minus infinity or infinite kinetic energy
        if (c.b()) {
            w.E(i, j, k) = -inf_v;
        } else {
            w.rhou[c.i(0, ndim - 1)](i, j, k) = c.pick({inf_v, -inf_v});
        }
        break;
    case 5: // infinite momentum and energy: not a number
        w.rhou[c.i(0, ndim - 1)](i, j, k) = inf_v;
        w.E(i, j, k) = inf_v;
        break;
    default:
        break;
    }
    c.note("%s grid=%dx%dx%d kind=%d at (%d,%d,%d)", show(s.m).c_str(), s.dims[0], s.dims[1], s.dims[2], kind, i, j, k);
    c.nontrivial(kind != 0 || s.n > 1);
    c.label(pbt::cat("kind", kind));
    auto const got = everywhere(s, [&](Grid& g) {
        auto const& e = g.Nx_local_wg;
        KV_double_4d const rhou("rhou", e[0], e[1], e[2], ndim);
        auto const lo = g.range.Corner_min;
        fill4(rhou, [&](int a, int b, int q, int d) { return w.rhou[d](lo[0] + a, lo[1] + b, lo[2] + q); });
        return hclpp::minimum_internal_energy(g.range.no_ghosts(), g, slice(g, w.rho), rhou, slice(g, w.E));
    });
    bool bad = false;
    double lowest = inf_v;
    double scale = 0;
    for_each(w.rho, [&](int a, int b, int q) {
        if (in(s.m, a, b, q)) {
            double const e = ev(a, b, q);
            bad = bad || std::isnan(e);
            lowest = std::min(lowest, e);
            scale = std::max(scale, std::abs(w.E(a, b, q)));
        }
    });
    if (bad || lowest == -inf_v) {
        REQUIRE(!(got[0] > 0), "an invalid cell is hidden: minimum internal energy ", got[0]);
    } else {
        REQUIRE(pbt::close(got[0], lowest, 1e-12, scale), "minimum internal energy ", got[0], " instead of ", lowest);
        REQUIRE((got[0] > 0) == (lowest > 0) || std::abs(lowest) < 1e-12 * scale, "sign of the minimum internal energy ", got[0], " instead of ", lowest);
    }
}

PBT_TEST(temperatures, 1)
{
    Setup s = setup(c);
    RefEos const e = random_eos(c);
    EOS const eos(e.gamma, e.mu);
    Global rho(s.m);
    Global P(s.m);
    for (std::size_t q = 0; q < rho.v.size() && q < 40; ++q) {
        Thermo const t = random_thermo(c, e);
        rho.v[q] = t.rho;
        P.v[q] = t.P;
    }
    for (std::size_t q = 40; q < rho.v.size(); ++q) {
        rho.v[q] = rho.v[q % 40];
        P.v[q] = P.v[q % 40];
    }
    int const which = c.i(0, 2);
    c.note("%s", show(s.m).c_str());
    c.nontrivial();
    everywhere(s, [&](Grid& g) {
        KV_double_3d const T("T", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]);
        fill_all(T, -7.);
        int const layers = which == 0 ? 0 : which == 1 ? 1 : s.m.ng;
        hclpp::temperature(which == 0 ? g.range.no_ghosts() : which == 1 && s.m.ng > 1 ? g.range.with_ghosts(1) : g.range.all_ghosts(), eos, slice(g, rho), slice(g, P), T);
        auto const lo = g.range.Corner_min;
        for (int i = 0; i < T.extent_int(0); ++i) {
            for (int j = 0; j < T.extent_int(1); ++j) {
                for (int k = 0; k < T.extent_int(2); ++k) {
                    std::array<int, 3> const p {i, j, k};
                    bool want = true;
                    for (int d = 0; d < ndim; ++d) {
                        want = want && p[d] >= g.Nghost[d] - layers && p[d] < g.Nghost[d] + g.Nx_local_ng[d] + layers;
                    }
                    double const r = rho(lo[0] + i, lo[1] + j, lo[2] + k);
                    double const q = P(lo[0] + i, lo[1] + j, lo[2] + k);
                    double const ex = want ? e.temp_from_pres(r, q) : -7.;
                    REQUIRE(pbt::close(T(i, j, k), ex, perfect_gas ? 1e-12 : 1e-6), "temperature of (", i, ",", j, ",", k, ") is ", T(i, j, k), " instead of ", ex, want ? "" : " (outside of the range)");
                }
            }
        }
        return 0.;
    });
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
