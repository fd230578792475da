// O03: a restarted run continues as if it had never stopped.
#include <runs.hpp>

using namespace hz;

namespace {

// a known finding: its key, and a check (of the restart from an output on a machine) that the difference is this one only
struct Known
{
    std::string key;
    std::function<void(Ini const& restart, Machine const& m, std::string const& from, std::map<std::string, H5File> const& want)> only;
};

// all the runs of a chain write into directories of their own; the reference is the uninterrupted run
void chain(pbt::Case& c, RunCase const& r, Machine const& first, Known const& known)
{
    std::string const dir = scratch_dir("o03a");
    RunResult const x = run_program(r.ini, dir, first);
    c.discard_if(!x.success());
    auto const ref = outputs(dir);
    c.discard_if(ref.size() < 2);
    std::string from_dir = dir;
    auto from = ref;
    int const links = c.i(1, 3);
    for (int k = 0; k < links; ++k) {
        if (from.size() < 2) {
            break;
        }
        // any output but the last one (there the run has nothing left to do)
        auto it = from.begin();
        std::advance(it, c.i(0, static_cast<int>(from.size()) - 2));
        Machine const m = random_machine(c, r, 4);
        Ini ini = r.ini;
        ini.set("Problem", "restart", "true");
        ini.set("Problem", "restart_file", from_dir + "/" + it->first);
        c.note("| from output %d on %s", it->second.integer("output_id"), show(m).c_str());
        std::string const d = scratch_dir("o03b" + std::to_string(k));
        RunResult const y = run_program(ini, d, m);
        if (!y.success()) {
            pbt::fail("the restart from ", it->first, " fails: ", y.describe());
        }
        auto const got = outputs(d);
        std::map<std::string, H5File> want;
        for (auto const& [n, f] : ref) {
            if (n > it->first) {
                want[n] = f;
            }
        }
        try {
            same_outputs(want, got, 1e-8, "restart from " + it->first);
        } catch (pbt::Failure& f) {
            if (!known.key.empty()) {
                known.only(ini, m, it->first, want);
                f.key = known.key;
            }
            throw;
        }
        c.nontrivial();
        c.label(pbt::cat("link ", k + 1));
        // the start of the next link: an output of this one
        from_dir = d;
        from = got;
    }
}

RunCase schedule(pbt::Case& c, RunOpt const& o)
{
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(1., 14.) * r.dt_est));
    int const f = c.i(0, 3);
    if (f > 0) {
        r.ini.set("Output", "iter_frequency", f);
    }
    if (f == 0 || c.chance(1, 3)) {
        r.ini.set("Output", "time_frequency", c.d(0.5, 4.) * r.dt_est);
        if (c.chance(1, 3)) {
            r.ini.set("Output", "time_first_output", r.t_ini + (c.d(0.2, 4.) * r.dt_est));
        }
    }
    // a bound in any case: a flow that leaves a wall may end with arbitrarily small time steps
    r.ini.set("Output", "max_iter", c.chance(1, 4) ? c.i(2, 9) : 50);
    return r;
}

} // namespace

PBT_TEST(restart, 1)
{
    RunOpt o;
    o.shift = true;
    RunCase r = schedule(c, o);
    if (!r.ini.get("Problem", "rmax_shift").empty()) {
        // stopping the shift for good also changes the outer boundary: see the next test
        r.ini.unset("Boundary Condition", "BC_X0");
        r.ini.set("Boundary Condition", "BC_X0_left", "Reflexive");
        r.ini.set("Boundary Condition", "BC_X0_right", "NullGradient");
    }
    Machine const m = random_machine(c, r, 3);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    chain(c, r, m, {});
}

// the mesh stops following the flow at rmax_shift, and the outer boundary becomes open
PBT_TEST(restart_after_shift, 0.2)
{
    RunCase r = schedule(c, {});
    double const lo = std::stod(r.ini.get("Grid", "x0min"));
    double const hi = std::stod(r.ini.get("Grid", "x0max"));
    r.ini.set("Grid", "shift_grid", "UserDefined");
    r.ini.set("Initialisation", "vmax_shift", -1e300);
    r.ini.set("Problem", "rmax_shift", hi + (c.d(0., 1.) * (hi - lo)));
    r.ini.unset("Boundary Condition", "BC_X0");
    r.ini.set("Boundary Condition", "BC_X0_left", "Reflexive");
    r.ini.set("Boundary Condition", "BC_X0_right", "Reflexive");
    Machine const m = random_machine(c, r, 3);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    // the run that never stopped goes on with an open outer boundary, and so does a restart which is told so
    auto const only = [](Ini open, Machine const& k, std::string const& from, std::map<std::string, H5File> const& want) {
        open.set("Boundary Condition", "BC_X0_right", "NullGradient");
        std::string const e = scratch_dir("o03c");
        RunResult const z = run_program(open, e, k);
        if (!z.success()) {
            pbt::fail("the restart from ", from, " with an open boundary fails: ", z.describe());
        }
        same_outputs(want, outputs(e), 1e-8, "restart with an open outer boundary from " + from);
    };
    chain(c, r, m, {"shift-stopped", only});
}

#if defined(VERIF_GRAVITY_Internal_mass)
// a boundary that depends on the gravity of the gas sees the one of the step before, or of the file
PBT_TEST(restart_boundary_gravity, 0.2)
{
    RunOpt o;
    o.boundary_gravity = true;
    RunCase r = schedule(c, o);
    r.ini.unset("Boundary Condition", "BC_X0");
    r.ini.set("Boundary Condition", "BC_X0_left", "Reflexive");
    r.ini.set("Boundary Condition", "BC_X0_right", "UserDefined");
    if (r.ini.get("Initialisation", "bc_gravity").empty()) {
        r.ini.set("Initialisation", "bc_gravity", c.logd(0.1, 10.));
    }
    Machine const m = random_machine(c, r, 3);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    // without this dependency the restart is exact
    auto const only = [&](Ini restart, Machine const& k, std::string const& from, std::map<std::string, H5File> const& /*want*/) {
        Ini plain = r.ini;
        plain.unset("Initialisation", "bc_gravity");
        std::string const d = scratch_dir("o03c");
        RunResult const x = run_program(plain, d, m);
        c.discard_if(!x.success());
        auto const ref = outputs(d);
        c.discard_if(ref.count(from) == 0);
        restart.unset("Initialisation", "bc_gravity");
        restart.set("Problem", "restart_file", d + "/" + from);
        std::string const e = scratch_dir("o03d");
        RunResult const z = run_program(restart, e, k);
        if (!z.success()) {
            pbt::fail("the restart from ", from, " with a plain boundary fails: ", z.describe());
        }
        std::map<std::string, H5File> rest;
        for (auto const& [n, f] : ref) {
            if (n > from) {
                rest[n] = f;
            }
        }
        same_outputs(rest, outputs(e), 1e-8, "restart with a plain outer boundary from " + from);
    };
    chain(c, r, m, {"boundary-gravity", only});
}
#endif

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
