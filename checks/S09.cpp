// S09: results do not depend on the system of units.  The same problem is run in two systems of units of length,
// velocity and density; the units are powers of two, so that the current code gives bit for bit the same numbers.
#include <eos.hpp>
#include <runs.hpp>

using namespace hz;

namespace {

inline constexpr bool perfect = hclpp::eos_choice == "PerfectGas";

struct Units
{
    int l = 0, v = 0, r = 0; // exponents of two of the units of length, velocity and density
};

double length(Units const& u) { return std::ldexp(1., u.l); }
double velocity(Units const& u) { return std::ldexp(1., u.v); }
double density(Units const& u) { return std::ldexp(1., u.r); }

Units random_units(pbt::Case& c)
{
    Units u;
    if (perfect) {
        u.l = c.i(-60, 60);
        u.v = c.i(-40, 40);
        u.r = internal_mass ? 2 * (u.v - u.l) : c.i(-90, 40); // the constant of gravity keeps its value
    } else {
        // the radiation constant keeps its value: T ~ v^2, P ~ T^4
        u.v = c.i(-2, 2);
        u.r = 6 * u.v;
        u.l = internal_mass ? -2 * u.v : c.i(-60, 60);
    }
    return u;
}

void times(Ini& ini, char const* section, std::string const& key, double f)
{
    std::string const s = ini.get(section, key);
    if (!s.empty()) {
        ini.set(section, key, std::strtod(s.c_str(), nullptr) * f);
    }
}

Ini in_units(Ini ini, Units const& u)
{
    double const l = length(u);
    double const v = velocity(u);
    double const r = density(u);
    for (int d = 0; d < ndim; ++d) {
        if (d == 0 || !run_spherical) {
            times(ini, "Grid", "x" + std::to_string(d) + "min", l);
            times(ini, "Grid", "x" + std::to_string(d) + "max", l);
        }
        times(ini, "Gravity", "gx" + std::to_string(d), v * v / l);
    }
    times(ini, "Gravity", "M", v * v * l);
    times(ini, "Initialisation", "rho0", r);
    times(ini, "Initialisation", "P0", r * v * v);
    times(ini, "Initialisation", "u0", v);
    times(ini, "Initialisation", "du", v);
    times(ini, "Initialisation", "vmax_shift", v);
    times(ini, "Initialisation", "bc_gravity", l / (v * v));
    times(ini, "Problem", "rmax_shift", l);
    times(ini, "Run", "t_ini", l / v);
    times(ini, "Run", "t_end", l / v);
    times(ini, "Output", "time_frequency", l / v);
    return ini;
}

// the numbers of a file in the units of reference
void from_units(H5File& f, Units const& u)
{
    double const l = length(u);
    double const v = velocity(u);
    double const r = density(u);
    for (auto& [k, x] : f.d) {
        double s = 1;
        if (k == "rho") {
            s = r;
        } else if (k == "P" || k == "E") {
            s = r * v * v;
        } else if (k == "T") {
            s = v * v;
        } else if (k.compare(0, 2, "ux") == 0) {
            s = v;
        } else if (k.compare(0, 2, "x0") == 0 || (!run_spherical && k[0] == 'x')) {
            s = l;
            if (k[1] - '0' >= ndim) {
                s = 1; // this direction does not exist
            }
        } else if (k == "current_time") {
            s = l / v;
        }
        for (double& y : x.v) {
            y /= s;
        }
    }
}

std::string show(Units const& u)
{
    return pbt::cat("length 2^", u.l, " velocity 2^", u.v, " density 2^", u.r);
}

} // namespace

PBT_TEST(units, 1)
{
    RunOpt o;
    o.shift = true;
    o.self_gravity = perfect;
    RunCase r = random_run(c, o);
    r.ini.unset("User step", "user_step"); // that of the generic problem has numbers of its own
    r.ini.set("Run", "t_end", r.t_ini + (r.dt_est * c.d(0.5, 10.)));
    r.ini.set("Output", "max_iter", 40);
    if (c.b()) {
        r.ini.set("Output", "iter_frequency", c.i(1, 3));
    }
    if (c.b()) {
        r.ini.set("Output", "time_frequency", r.dt_est * c.d(0.5, 4.));
    }
    if (!r.ini.get("Grid", "shift_grid").empty() && r.ini.get("Problem", "rmax_shift").empty()) {
        r.ini.set("Problem", "rmax_shift", 1e3); // the default is a length
    }
    Machine const m = random_machine(c, r, 2);
    Units a;
    if (!perfect) {
        // stellar matter, where the pressures of the gas and of the radiation are comparable
        a.v = 17;
        a.r = -5;
        a.l = internal_mass ? c.i(18, 22) : 30;
    } else if (c.b()) {
        a = random_units(c);
    }
    Units const s = random_units(c);
    Units b = a;
    b.l += s.l;
    b.v += s.v;
    b.r += s.r;
    if (perfect) {
        b = s;
    }
    Ini const ia = in_units(r.ini, a);
    Ini const ib = in_units(r.ini, b);
    c.note("%s | %s | in units of %s", ia.show().c_str(), hz::show(m).c_str(), show(b).c_str());
    std::string const da = scratch_dir("s09a");
    std::string const db = scratch_dir("s09b");
    RunResult const ra = run_program(ia, da, m);
    RunResult const rb = run_program(ib, db, m);
    if (ra.success() != rb.success()) {
        pbt::fail("the run ends differently: ", ra.describe(), " / ", rb.describe());
    }
    if (!ra.success()) {
        c.discard_if(true);
    }
    auto fa = outputs(da);
    auto fb = outputs(db);
    for (auto& [n, f] : fa) {
        from_units(f, a);
    }
    for (auto& [n, f] : fb) {
        from_units(f, b);
    }
    same_outputs(fa, fb, 1e-10, "in units of " + show(b));
    c.nontrivial((a.l != b.l || a.v != b.v || a.r != b.r) && fa.rbegin()->second.integer("iter") >= 2);
    c.label(pbt::cat(m.n, " ranks"));
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
