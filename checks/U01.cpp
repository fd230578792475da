// U01: nickel heating.
#include <user_step.hpp>
#include <user_step_factory.hpp>
#include <pbt.hpp>

#include <world.hpp>

using namespace hz;

namespace {

// independent constants (SI)
constexpr long double day = 86400;
constexpr long double mev = 1.602176634e-13L;
constexpr long double amu = 1.66053906660e-27L;

// activity of the chain nickel -> cobalt -> iron per nickel nucleus at t = 0
long double power(long double t)
{
    long double const tn = 8.8L * day;
    long double const tc = 111.3L * day;
    long double const ni = std::exp(-t / tn);
    long double const co = tc / (tc - tn) * (std::exp(-t / tc) - std::exp(-t / tn));
    return ((1.75L * mev * ni / tn) + (3.73L * mev * co / tc)) / (55.9421278L * amu);
}
struct Fields
{
    Mesh m;
    int nfx;
    std::vector<double> old; // all values in the order of Local::at
};
double value(pbt::u64 salt, int f, int i, int j, int k)
{
    return static_cast<double>(pbt::mix(pbt::mix(salt * 7 + f) + (i * 10007) + (j * 101) + (k * 100003)) >> 11) / 9007199254740992.;
}

} // namespace

PBT_TEST(heating, 3)
{
    reset(c);
    MeshOpt o;
    o.ng_min = 1;
    Mesh const m = random_mesh(c, o);
    int const nfx = c.i(1, 4);
    bool const off = c.chance(1, 5);
    double const t = c.chance(1, 6) ? 0. : c.logd(1., 3e8);
    double const dt = c.chance(1, 8) ? 0. : c.logd(1e-3, 1e6);
    int const no_nickel = c.i(0, 3);
    double const unit_e = c.logd(1e-6, 1e3) * static_cast<double>(power(t)) * std::max(dt, 1.);
    pbt::u64 const salt = c.below(1 << 20);
    c.note("%s t=%g dt=%g %s nfx=%d", show(m).c_str(), t, dt, off ? "Off" : "Heat_nickel", nfx);
    c.nontrivial(!off && dt > 0 && no_nickel != 3);
    Grid grid(m.nx, {1, 1, 1}, m.ng);
    Local const l(grid, nfx);
    auto const old = [&](int f, int i, int j, int k) {
        double const v = value(salt, f, i, j, k);
        if (f == 0) {
            return 0.1 + (10 * v);
        }
        if (f == ndim + 1) {
            return unit_e * v;
        }
        if (f == ndim + 2 && (no_nickel == 3 || (no_nickel == 2 && (i + j + k) % 2 == 0))) {
            return 0.;
        }
        return v;
    };
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < l.nf(); ++f) {
            l.at(f, i, j, k) = old(f, i, j, k);
        }
    });
    auto const step = hclpp::factory_user_step(off ? "Off" : "Heat_nickel");
    step->execute(grid.range.no_ghosts(), t, dt, l.rho, l.E, l.fx);
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < l.nf(); ++f) {
            double const before = old(f, i, j, k);
            double const got = l.at(f, i, j, k);
            double add = 0;
            if (f == ndim + 1 && !off && interior(grid, i, j, k)) {
                add = static_cast<double>(power(t)) * old(0, i, j, k) * old(ndim + 2, i, j, k) * dt;
            }
            if (add == 0) {
                REQUIRE(got == before, field_name(f), " of cell (", i, ",", j, ",", k, ") changed from ", before, " to ", got);
            } else {
                REQUIRE(pbt::close(got, before + add, 1e-12) || pbt::close(got - before, add, 1e-4, 1e-9 * before), "energy of cell (", i, ",", j, ",", k, ") went from ", before, " to ", got, " instead of ", before + add);
                REQUIRE(pbt::close(got - before, add, 1e-5, 1e-9 * before), "heating of cell (", i, ",", j, ",", k, ") is ", got - before, " instead of ", add);
            }
        }
    });
    check_faults();
}

// the energy released between two times is that of the decays in between
PBT_TEST(budget, 0.05)
{
    reset(c);
    Mesh m;
    m.ng = 1;
    for (int d = 0; d < 3; ++d) {
        m.nx[d] = 1;
        m.ngh[d] = d < ndim ? 1 : 0;
        m.x[d] = m.ngh[d] == 1 ? std::vector<double> {0, 1, 2, 3} : std::vector<double> {0, 1};
    }
    Grid grid(m.nx, {1, 1, 1}, m.ng);
    Local const l(grid, 1);
    double const t0 = c.d(0, 50) * 86400;
    double const t1 = t0 + (c.logd(1., 1000) * 86400);
    double const rho = c.logd(1e-3, 1e3);
    double const x = c.d(0.01, 1);
    c.note("t0=%g t1=%g rho=%g x=%g", t0, t1, rho, x);
    c.nontrivial();
    l.each([&](int i, int j, int k) {
        l.rho(i, j, k) = rho;
        l.E(i, j, k) = 0;
        l.fx(i, j, k, 0) = x;
    });
    auto const step = hclpp::factory_user_step("Heat_nickel");
    // Simpson's rule by means of the steps themselves
    int const n = 2000;
    double const h = (t1 - t0) / n;
    for (int s = 0; s <= n; ++s) {
        double const w = s == 0 || s == n ? 1 : s % 2 == 1 ? 4 : 2;
        step->execute(grid.range.no_ghosts(), t0 + (s * h), w * h / 3, l.rho, l.E, l.fx);
    }
    long double const tn = 8.8L * day;
    long double const tc = 111.3L * day;
    auto const ni = [&](long double t) { return std::exp(-t / tn); };
    auto const co = [&](long double t) { return tc / (tc - tn) * (std::exp(-t / tc) - std::exp(-t / tn)); };
    // decays of nickel: -d ni; decays of cobalt: those that arrived minus those that are left
    long double const dni = ni(t0) - ni(t1);
    long double const dco = dni - (co(t1) - co(t0));
    double const expect = static_cast<double>(rho * x / (55.9421278L * amu) * mev * ((1.75L * dni) + (3.73L * dco)));
    double const got = l.E(grid.Nghost[0], grid.Nghost[1], grid.Nghost[2]);
    REQUIRE(pbt::close(got, expect, 2e-6), "energy released from t=", t0, " to t=", t1, " is ", got, " instead of ", expect);
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
