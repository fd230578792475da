// Random thermodynamic and hydrodynamic states, and an independent reference of both equations of state.
#pragma once

#include <cmath>

#include <eos.hpp>
#include <euler_equations.hpp>
#include <harness.hpp>
#include <units.hpp>

namespace hz {

using hclpp::EOS;
using hclpp::EulerCons;
using hclpp::EulerFlux;
using hclpp::EulerPrim;

inline constexpr bool perfect_gas = hclpp::eos_choice == "PerfectGas";

// Physical constants, independent of the code base (CODATA 2018, SI)
namespace si {
inline constexpr double kb = 1.380649e-23;
inline constexpr double G = 6.67430e-11;
inline constexpr double mp = 1.67262192369e-27;
inline constexpr double ar = 7.565723e-16;
} // namespace si

// Reference equation of state: everything is derived from P(rho, T) and e(rho, T).
struct RefEos
{
    double gamma, mu;
    double rho_unit = 1, P_unit = 1; // the states of a problem are drawn around these
    double R() const { return hclpp::units::kb / (mu * hclpp::units::mp); }
    double a() const { return perfect_gas ? 0. : hclpp::units::ar; }
    double pressure(double rho, double T) const { return (rho * R() * T) + (a() * T * T * T * T / 3); }
    double evol(double rho, double T) const { return (rho * R() * T / (gamma - 1)) + (a() * T * T * T * T); }
    // monotone in T: bisection in log T
    template <class F>
    static double solve(F f, double y, double hi)
    {
        double lo = 0;
        for (int k = 0; k < 200; ++k) {
            double const mid = lo + ((hi - lo) / 2);
            if (mid == lo || mid == hi) {
                break;
            }
            (f(mid) < y ? lo : hi) = mid;
        }
        return (lo + hi) / 2;
    }
    double temp_from_pres(double rho, double P) const
    {
        if (perfect_gas) {
            return P / (rho * R());
        }
        return solve([&](double T) { return pressure(rho, T); }, P, 2 * P / (rho * R()));
    }
    double temp_from_evol(double rho, double e) const
    {
        if (perfect_gas) {
            return e * (gamma - 1) / (rho * R());
        }
        return solve([&](double T) { return evol(rho, T); }, e, 2 * e * (gamma - 1) / (rho * R()));
    }
    double evol_from_pres(double rho, double P) const { return perfect_gas ? P / (gamma - 1) : evol(rho, temp_from_pres(rho, P)); }
    double pres_from_evol(double rho, double e) const { return perfect_gas ? e * (gamma - 1) : pressure(rho, temp_from_evol(rho, e)); }
    // c^2 = (dP/drho)_T + T (dP/dT)_rho^2 / (rho^2 c_v)
    double sound(double rho, double P) const
    {
        double const T = temp_from_pres(rho, P);
        double const dpdr = R() * T;
        double const dpdt = (rho * R()) + (4 * a() * T * T * T / 3);
        double const rcv = (rho * R() / (gamma - 1)) + (4 * a() * T * T * T); // rho * c_v
        return std::sqrt(dpdr + (T * dpdt * dpdt / (rho * rcv)));
    }
};

// rho and P of a gas.  With radiation both the gas and the radiation dominated regimes are reached.
struct Thermo
{
    double rho, P;
};
inline Thermo random_thermo(pbt::Case& c, RefEos const& e)
{
    Thermo t {};
    if (perfect_gas) {
        t.rho = e.rho_unit * c.logd(1e-4, 1e4);
        t.P = e.P_unit * c.logd(1e-4, 1e4);
    } else {
        double const T = c.logd(1e3, 1e8);
        double const ratio = c.logd(1e-3, 1e3); // radiation over gas pressure
        t.P = e.a() * T * T * T * T / 3;
        t.rho = t.P / ratio / (e.R() * T);
        t.P += t.rho * e.R() * T;
    }
    return t;
}
inline EulerPrim random_prim(pbt::Case& c, RefEos const& e, double max_mach = 5)
{
    EulerPrim p {};
    Thermo const t = random_thermo(c, e);
    p.rho = t.rho;
    p.P = t.P;
    double const s = e.sound(p.rho, p.P);
    for (int d = 0; d < ndim; ++d) {
        p.u[d] = s * c.sym(max_mach);
    }
    return p;
}
// a state near the given one: same order of magnitude of density and sound speed
inline EulerPrim near_prim(pbt::Case& c, RefEos const& e, EulerPrim const& q, double max_mach = 5)
{
    EulerPrim p {};
    p.rho = q.rho * c.logd(0.1, 10.);
    p.P = q.P * c.logd(0.1, 10.);
    double const s = e.sound(q.rho, q.P);
    for (int d = 0; d < ndim; ++d) {
        p.u[d] = s * c.sym(max_mach);
    }
    return p;
}
inline EulerCons ref_cons(EulerPrim const& p, RefEos const& e)
{
    EulerCons q {};
    q.rho = p.rho;
    q.E = e.evol_from_pres(p.rho, p.P);
    for (int d = 0; d < ndim; ++d) {
        q.rhou[d] = p.rho * p.u[d];
        q.E += p.rho * p.u[d] * p.u[d] / 2;
    }
    return q;
}
inline EulerFlux ref_flux(EulerPrim const& p, RefEos const& e, int dir)
{
    EulerCons const q = ref_cons(p, e);
    EulerFlux f {};
    f.rho = p.u[dir] * q.rho;
    for (int d = 0; d < ndim; ++d) {
        f.rhou[d] = p.u[dir] * q.rhou[d];
    }
    f.rhou[dir] += p.P;
    f.E = p.u[dir] * (q.E + p.P);
    return f;
}
inline std::string show(EulerPrim const& p)
{
    std::string s = pbt::cat("rho=", p.rho, " u=(");
    for (int d = 0; d < ndim; ++d) {
        s += pbt::cat(d ? "," : "", p.u[d]);
    }
    return s + pbt::cat(") P=", p.P);
}
inline RefEos random_eos(pbt::Case& c)
{
    RefEos e {};
    e.gamma = c.b() ? c.d(1.05, 3.) : c.pick({5. / 3, 1.4, 4. / 3, 2.});
    e.mu = c.b() ? c.logd(0.3, 30.) : 1.;
    if (perfect_gas && c.chance(1, 4)) {
        // from interstellar to stellar gas, in any system of units
        e.rho_unit = c.logd(1e-28, 1e10);
        e.P_unit = e.rho_unit * c.logd(1e-6, 1e20);
    }
    return e;
}
inline void require_flux(EulerFlux const& a, EulerFlux const& b, double rel, double srho, double smom, double sE, char const* what)
{
    REQUIRE(pbt::close(a.rho, b.rho, rel, srho), what, ": mass flux ", a.rho, " expected ", b.rho);
    for (int d = 0; d < ndim; ++d) {
        REQUIRE(pbt::close(a.rhou[d], b.rhou[d], rel, smom), what, ": momentum flux[", d, "] ", a.rhou[d], " expected ", b.rhou[d]);
    }
    REQUIRE(pbt::close(a.E, b.E, rel, sE), what, ": energy flux ", a.E, " expected ", b.E);
}

} // namespace hz
