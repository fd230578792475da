// T01: equations of state.
#include <pbt.hpp>

#include <limits>

#include <states.hpp>
#include <temperature.hpp>

using namespace hz;

namespace {

struct In
{
    RefEos e;
    Thermo t;
    double tol; // of the conversions
};
In gen(pbt::Case& c)
{
    In in {};
    in.tol = 1e-9;
    in.e = random_eos(c);
    if (perfect_gas) {
        in.t.rho = c.logd(1e-20, 1e15);
        in.t.P = c.logd(1e-15, 1e25);
    } else {
        double const T = c.chance(3, 10) ? c.logd(1e-3, 1e2) : c.logd(1e2, 1e9);
        in.tol += 1e-10 / (T * T); // Newton stops at 1e-6 K: its error is then below 1.5e-12 K^2 / T, times 8 in a round trip of energies
        double const ratio = c.logd(1e-12, 1e16);
        in.t.P = in.e.a() * T * T * T * T / 3;
        in.t.rho = in.t.P / ratio / (in.e.R() * T);
        in.t.P += in.t.rho * in.e.R() * T;
        c.label(ratio < 1e-2 ? "gas dominated" : ratio > 1e2 ? "radiation dominated" : "mixed");
    }
    c.note("gamma=%.6g mu=%.4g rho=%.6g P=%.6g", in.e.gamma, in.e.mu, in.t.rho, in.t.P);
    return in;
}
} // namespace

PBT_TEST(against_reference, 2)
{
    reset();
    In const in = gen(c);
    EOS const eos(in.e.gamma, in.e.mu);
    auto const [rho, P] = in.t;
    double const tol = in.tol;
    double const T = in.e.temp_from_pres(rho, P);
    double const ev = in.e.evol(rho, T);
    c.nontrivial();
    REQUIRE(pbt::close(eos.adiabatic_index(), in.e.gamma, 1e-15) && pbt::close(eos.mean_molecular_weight(), in.e.mu, 1e-15), "parameters");
    REQUIRE(pbt::close(eos.compute_temp_from_pres(rho, P), T, tol), "temperature from pressure ", eos.compute_temp_from_pres(rho, P), " expected ", T);
    REQUIRE(pbt::close(eos.compute_temp_from_evol(rho, ev), T, tol), "temperature from energy ", eos.compute_temp_from_evol(rho, ev), " expected ", T);
    REQUIRE(pbt::close(eos.compute_evol_from_temp(rho, T), ev, tol), "energy from temperature ", eos.compute_evol_from_temp(rho, T), " expected ", ev);
    REQUIRE(pbt::close(eos.compute_pres_from_temp(rho, T), P, tol), "pressure from temperature ", eos.compute_pres_from_temp(rho, T), " expected ", P);
    REQUIRE(pbt::close(eos.compute_evol_from_pres(rho, P), ev, 8 * tol), "energy from pressure ", eos.compute_evol_from_pres(rho, P), " expected ", ev);
    REQUIRE(pbt::close(eos.compute_pres_from_evol(rho, ev), P, 8 * tol), "pressure from energy ", eos.compute_pres_from_evol(rho, ev), " expected ", P);
    double const cs = in.e.sound(rho, P);
    REQUIRE(pbt::close(eos.compute_speed_of_sound(rho, P), cs, tol), "sound speed ", eos.compute_speed_of_sound(rho, P), " expected ", cs);
    REQUIRE(kstub::st().printf_log.empty(), "diagnostic printed on a valid state: ", kstub::st().printf_log);
    REQUIRE(EOS::is_valid(rho, P), "a valid state is declared invalid");
    // the sound speed is the isentropic derivative: finite difference along de = (e + P) / rho drho
    double const h = 1e-5;
    double const e1 = ev + ((ev + P) * h);
    double const e0 = ev - ((ev + P) * h);
    double const c2 = (in.e.pres_from_evol(rho * (1 + h), e1) - in.e.pres_from_evol(rho * (1 - h), e0)) / (2 * h * rho);
    REQUIRE(pbt::close(cs * cs, c2, 1e-4), "sound speed squared ", cs * cs, " isentropic derivative ", c2);
}

PBT_TEST(round_trips, 1)
{
    reset();
    In const in = gen(c);
    EOS const eos(in.e.gamma, in.e.mu);
    auto const [rho, P] = in.t;
    double const tol = in.tol;
    c.nontrivial();
    REQUIRE(pbt::close(eos.compute_pres_from_evol(rho, eos.compute_evol_from_pres(rho, P)), P, tol), "P -> e -> P");
    REQUIRE(pbt::close(eos.compute_pres_from_temp(rho, eos.compute_temp_from_pres(rho, P)), P, tol), "P -> T -> P");
    double const ev = P * c.logd(0.5, 3.);
    REQUIRE(pbt::close(eos.compute_evol_from_pres(rho, eos.compute_pres_from_evol(rho, ev)), ev, tol), "e -> P -> e");
    REQUIRE(pbt::close(eos.compute_evol_from_temp(rho, eos.compute_temp_from_evol(rho, ev)), ev, tol), "e -> T -> e");
    // more energy at constant density: more pressure, temperature and sound speed
    double const q = c.d(1.001, 10);
    REQUIRE(eos.compute_pres_from_evol(rho, ev * q) > eos.compute_pres_from_evol(rho, ev), "pressure increases with energy");
    REQUIRE(eos.compute_temp_from_pres(rho, P * q) > eos.compute_temp_from_pres(rho, P), "temperature increases with pressure");
    REQUIRE(eos.compute_speed_of_sound(rho, P * q) > eos.compute_speed_of_sound(rho, P), "sound speed increases with pressure");
}

PBT_TEST(validity, 1)
{
    reset();
    double const inf = std::numeric_limits<double>::infinity();
    double const nan = std::numeric_limits<double>::quiet_NaN();
    double const g = c.pick({1.4, 1.0, 0.5, -1.4, 0., inf, -inf, nan, 1.0000001, 5. / 3, 0.9999999});
    double const m = c.pick({1., 0., -1., inf, -inf, nan, 1e-3, 30.});
    bool const ok = std::isfinite(g) && g > 1 && std::isfinite(m) && m > 0;
    c.note("gamma=%g mu=%g", g, m);
    bool thrown = false;
    try {
        EOS const eos(g, m);
    } catch (std::exception const&) {
        thrown = true;
    }
    REQUIRE(thrown == !ok, "gas parameters gamma=", g, " mu=", m, thrown ? " rejected" : " accepted");
    double const vals[] = {1., 0., -1., inf, -inf, nan, 1e-300, -1e-300, 1e300};
    double const rho = vals[c.below(9)];
    double const P = vals[c.below(9)];
    c.note("rho=%g P=%g", rho, P);
    bool const valid = std::isfinite(rho) && rho > 0 && std::isfinite(P) && P > 0;
    REQUIRE(EOS::is_valid(rho, P) == valid, "state rho=", rho, " P=", P);
    c.nontrivial(!ok || !valid);
}

PBT_TEST(constants, 0.01)
{
    namespace u = hclpp::units;
    auto near = [](char const* what, double a, double b, double rel) { REQUIRE(pbt::close(a, b, rel), what, " ", a, " expected ", b); };
    c.nontrivial();
    c.note("physical constants");
    near("Boltzmann constant", u::kb, 1.380649e-23, 1e-6);
    near("proton mass", u::mp, 1.67262192e-27, 1e-4);
    near("gravitational constant", u::G, 6.6743e-11, 1e-4);
    near("radiation constant", u::ar, 7.565733e-16, 1e-5);
    near("atomic mass unit", u::atomic_mass_unit, 1.6605390666e-27, 1e-6);
    near("MeV", u::MeV, 1.602176634e-13, 1e-6);
    near("day", u::day, 86400., 1e-12);
    near("pi", u::pi, std::acos(-1.), 1e-15);
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
