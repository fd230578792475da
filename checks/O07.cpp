// O07: invalid states and requests stop the run with an error on every process.
#include <runs.hpp>

using namespace hz;

namespace {

// smallest volumic internal energy of the interior cells of an output; NaN wins
double min_internal_energy(H5File const& f)
{
    auto const& rho = f.at("rho").v;
    auto const& E = f.at("E").v;
    double r = 1e300;
    for (std::size_t q = 0; q < rho.size(); ++q) {
        double kin = 0;
        for (int d = 0; d < ndim; ++d) {
            double const u = f.at("ux" + std::to_string(d)).v[q];
            kin += 0.5 * rho[q] * u * u;
        }
        double const e = E[q] - kin;
        if (std::isnan(e)) {
            return e;
        }
        r = std::min(r, e);
    }
    return r;
}
// no positive time step is stable
bool no_step(H5File const& f)
{
    for (double const x : f.at("rho").v) {
        if (!(x > 0)) {
            return true;
        }
    }
    for (double const x : f.at("P").v) {
        if (!std::isfinite(x)) {
            return true;
        }
    }
    return false;
}
// how much rounding may blur that minimum
double blur(H5File const& f)
{
    double m = 0;
    for (double const e : f.at("E").v) {
        m = std::isnan(e) ? m : std::max(m, std::abs(e));
    }
    return 1e-10 * m;
}

} // namespace

// Histories: the run and a twin that saves every iteration.  As long as the states are valid the run goes on, the first
// invalid one ends it with an error on every process, and is saved.
PBT_TEST(invalid_state, 1)
{
    RunOpt o;
    o.pressure_fix = false;
    RunCase r = random_run(c, o);
    // violent flows: rarefactions that empty cells, cold supersonic motion, strong gravity
    int const kind = c.i(0, 3);
    double const rho0 = std::stod(r.ini.get("Initialisation", "rho0"));
    double const P0 = std::stod(r.ini.get("Initialisation", "P0"));
    double const cs = std::sqrt(r.gamma * P0 / rho0);
    r.ini.set("Initialisation", "step", "true");
    double v = cs;
    if (kind == 0) {
        v = cs * c.d(1., 30.);
        r.ini.set("Initialisation", "du", v);
    } else if (kind == 1) {
        v = cs * c.d(1., 10.);
        r.ini.set("Initialisation", "u0", c.b() ? v : -v);
        r.ini.set("Initialisation", "du", v);
        r.ini.set("Initialisation", "drho", c.d(0.5, 0.99));
    } else if (kind == 2) {
        for (int d = 0; d < ndim; ++d) {
            r.ini.set("Gravity", "gx" + std::to_string(d), c.sym(1.) * 300 * cs * cs);
        }
        r.ini.set("Gravity", "M", c.logd(1., 1e4) * cs * cs / 6.67e-11);
    } else {
        r.ini.set("Initialisation", "dP", c.d(0.9, 1.2)); // may be negative from the start
    }
    r.ini.set("Run", "cfl", c.d(0.3, 1.5));
    int const iters = c.i(1, 8);
    r.ini.set("Run", "t_end", r.t_ini + (100 * r.dt_est));
    r.ini.set("Output", "max_iter", iters);
    bool const every = c.b();
    r.ini.set("Output", "iter_frequency", every ? 1 : c.i(2, 9));
    r.ini.set("Output", "prefix", "out");
    Machine const m = random_machine(c, r, 4);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());

    Ini twin = r.ini;
    twin.set("Output", "iter_frequency", 1);
    std::string const dir = scratch_dir("o07a");
    RunResult const tw = run_program(twin, dir, m);
    auto const all = outputs(dir);
    if (!tw.success() && !tw.refused()) {
        pbt::fail("the processes do not end together: ", tw.describe());
    }
    if (all.empty()) {
        pbt::fail("no output at all: ", tw.describe());
    }
    std::vector<H5File const*> f;
    for (auto const& [n, x] : all) {
        if (n != output_name("out", static_cast<int>(f.size()))) {
            pbt::fail("outputs are not numbered without gaps: ", n);
        }
        f.push_back(&x);
    }
    int const last = static_cast<int>(f.size()) - 1;
    int first_bad = -1;
    for (int k = 0; k <= last && first_bad < 0; ++k) {
        double const e = min_internal_energy(*f[k]);
        if (std::isnan(e) || e < 0) {
            if (!std::isnan(e)) {
                c.discard_if(e > -blur(*f[k]));
            }
            first_bad = k;
        } else {
            c.discard_if(e < blur(*f[k]));
        }
    }
    if (tw.success()) {
        if (first_bad >= 0) {
            pbt::fail("the run reports success although iteration ", f[first_bad]->integer("iter"), " has an invalid internal energy: ", min_internal_energy(*f[first_bad]));
        }
        c.label("valid");
        return;
    }
    bool const about_energy = tw.err[0].find("internal energy") != std::string::npos;
    bool const empty = no_step(*f[last]);
    if (first_bad < 0 && !about_energy && empty) {
        c.label("no positive step"); // an empty cell: the stability limit is zero
        return;
    }
    if (first_bad < 0) {
        pbt::fail("the run fails although every state is valid: ", tw.describe());
    }
    if (about_energy) {
        // the invalid state is saved when it appears, and again when the run stops
        int const it = f[first_bad]->integer("iter");
        if (f[last]->integer("iter") != it) {
            pbt::fail("the state is invalid from iteration ", it, " on, but the run goes on until iteration ", f[last]->integer("iter"));
        }
        if (f[last]->integer("output_id") != last) {
            pbt::fail("the last output says it is output ", f[last]->integer("output_id"), " instead of ", last);
        }
    }
    c.nontrivial();
    c.label(pbt::cat("invalid at ", f[first_bad]->integer("iter") == 0 ? "start" : "later"));

    // the plain run stops at the same iteration and saves the same state
    std::string const dir2 = scratch_dir("o07b");
    RunResult const pl = run_program(r.ini, dir2, m);
    if (!pl.refused()) {
        pbt::fail("saving every iteration, the run is stopped (", tw.err[0], "); saving less often, it is not: ", pl.describe());
    }
    auto const out = outputs(dir2);
    if (out.empty()) {
        pbt::fail("the invalid state is not saved");
    }
    H5File a = out.rbegin()->second;
    H5File b = *f[last];
    for (char const* q : {"output_id", "iter_output_id", "time_output_id"}) {
        a.d.erase(q);
        b.d.erase(q);
    }
    std::string const s = differ(a, b, 0);
    if (!s.empty()) {
        pbt::fail("the last saved state is not the invalid one: ", s);
    }
}

// Requests that cannot be satisfied
PBT_TEST(invalid_request, 1)
{
    RunCase r = random_run(c);
    r.ini.set("Run", "t_end", r.t_ini + (3 * r.dt_est));
    if (c.b()) {
        r.ini.set("Output", "iter_frequency", 1);
    }
    Machine m = random_machine(c, r, 4);
    std::vector<std::string> const bad {"", "hll", "None", "Unknown", "VanLeer2", "Null", "Regularx", "HLLC HLL", "periodic", "reflexive", "Low_Mach", "heat_nickel", "Off2", "on", "default"};
    int const kind = c.i(0, internal_mass ? 9 : 8);
    std::string const name = c.pick(bad);
    std::string what;
    switch (kind) {
    case 0:
        r.ini.set("Hydro", "riemann_solver", name);
        what = "unknown solver";
        break;
    case 1:
        r.ini.set("Hydro", "reconstruction", name);
        what = "unknown reconstruction";
        break;
    case 2: {
        std::string const bc = name.empty() ? "Nothing" : name;
        r.ini.set("Boundary Condition", std::string("BC") + bc_dirs(c.i(0, ndim - 1)) + (c.b() ? "_left" : "_right"), bc);
        what = "unknown boundary";
        break;
    }
    case 3: {
        int const d = c.i(0, ndim - 1);
        std::string const key = std::string("BC") + bc_dirs(d);
        r.ini.unset("Boundary Condition", key);
        r.ini.unset("Boundary Condition", key + "_left");
        r.ini.unset("Boundary Condition", key + "_right");
        if (c.b()) {
            r.ini.set("Boundary Condition", key + (c.b() ? "_left" : "_right"), "Reflexive");
        }
        what = "undefined boundary";
        break;
    }
    case 4:
        r.ini.set("Grid", "type", name);
        what = "unknown mesh";
        break;
    case 5:
        r.ini.set("User step", "user_step", name);
        what = "unknown user step";
        break;
    case 6: {
        // the time step is not positive
        int const how = c.i(0, 3);
        if (how == 0) {
            r.ini.set("Run", "t_end", r.t_ini - (c.d(0.01, 20.) * r.dt_est));
        } else if (how == 1) {
            r.ini.set("Run", "cfl", -c.d(0.01, 1.));
        } else if (how == 2) {
            r.ini.set("Run", "cfl", 0);
        } else {
            r.ini.set("Output", "time_frequency", r.dt_est);
            r.ini.set("Output", "time_first_output", r.t_ini - (c.d(0., 3.) * r.dt_est));
        }
        what = pbt::cat("time step not positive (", how, ")");
        break;
    }
    case 7: {
        // a process grid that does not have the right number of processes
        int const d = c.i(0, ndim - 1);
        int const was = m.dims[d];
        do {
            m.dims[d] = c.i(1, 6);
        } while (m.dims[d] == was && !c.replay);
        c.discard_if(m.dims[d] == was);
        what = "process grid of the wrong size";
        break;
    }
    case 8: {
        // an invalid priority list
        std::vector<std::string> names {"X0left", "X0right", "X1left", "X1right", "X2left", "X2right"};
        std::string const one = c.pick(std::vector<std::string> {"X0left", "nothing", "X5left"});
        r.ini.set("Boundary Condition", "priority", one + " " + one);
        what = "invalid boundary priority";
        break;
    }
    default:
        m.n = 2;
        m.dims = {2, 1, 1};
        m.perm.clear();
        r.ini.set("Grid", "Nx0_glob", std::max(r.nx[0], 2 * r.ng));
        what = "internal mass gravity on a decomposed radius";
        break;
    }
    c.note("%s: %s | %s", what.c_str(), r.ini.show().c_str(), show(m).c_str());
    c.label(what);
    std::string const dir = scratch_dir("o07c");
    RunResult const x = run_program(r.ini, dir, m);
    if (x.success()) {
        pbt::fail(what, ": the run reports success");
    }
    if (!x.refused()) {
        pbt::fail(what, ": the processes do not all end with an error: ", x.describe());
    }
    for (auto const& [n, f] : outputs(dir)) {
        if (f.integer("iter") > 0 && kind != 6) {
            pbt::fail(what, ": the run computes ", f.integer("iter"), " iterations before it is refused");
        }
    }
    c.nontrivial();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
