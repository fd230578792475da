// C03 on the whole program: omitted parameters, names that are not supported, boundaries chosen at three levels.
#include <names.hpp>
#include <runs.hpp>

using namespace hz;

namespace {

struct Default
{
    char const* section;
    char const* key;
    char const* value;
};
// the parameters whose default does not depend on others
Default const defaults[] = {
        {"Problem", "restart", "false"},
        {"Problem", "restart_file", "None"},
        {"Problem", "rmax_shift", "1e20"},
        {"Grid", "type", "Regular"},
        {"Grid", "Nghost", "2"},
        {"Grid", "x0min", "0"},
        {"Grid", "x0max", "1"},
        {"Grid", "x1min", "0"},
        {"Grid", "x1max", "1"},
        {"Grid", "x2min", "0"},
        {"Grid", "x2max", "1"},
        {"Grid", "shift_grid", "Off"},
        {"Parallelization", "mpi_device_aware", "false"},
        {"Run", "t_ini", "0"},
        {"Run", "t_end", "0.2"},
        {"Run", "cfl", "0.4"},
        {"Output", "max_iter", "10000"},
        {"Output", "iter_frequency", "0"},
        {"Output", "time_frequency", "0"},
        {"Output", "prefix", "result"},
        {"Output", "time_job", "20"},
        {"Hydro", "reconstruction", "VanLeer"},
        {"Hydro", "riemann_solver", "HLL"},
        {"Gravity", "gx0", "0"},
        {"Gravity", "gx1", "0"},
        {"Gravity", "gx2", "0"},
        {"Gravity", "M", "1"},
        {"Perfect Gas", "gamma", "1.66666666666666674"},
        {"Perfect Gas", "mu", "1"},
        {"Boundary Condition", "priority", ""},
        {"Passive Scalar", "nfx", "0"},
        {"User step", "user_step", "Off"},
        {"Pressure fix", "pressure_fix", "Off"},
        {"Pressure fix", "eps_pf", "0.000001"},
};

} // namespace

// leaving a parameter out is giving its default
PBT_TEST(omitted, 2)
{
    RunOpt o;
    o.shift = true;
    o.priority = true;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 6.) * r.dt_est));
    r.ini.set("Output", "max_iter", c.i(3, 8));
    if (c.b()) {
        r.ini.set("Output", "iter_frequency", c.i(1, 3));
    }
    if (c.chance(1, 3)) {
        r.ini.set("Output", "time_frequency", c.d(0.5, 4.) * r.dt_est);
    }
    int removed = 0;
    int added = 0;
    Ini shortened = r.ini;
    bool coords = run_spherical; // the meshes of the spherical runs need their bounds
    for (Default const& d : defaults) {
        bool const bound = d.key[0] == 'x';
        bool const shape = std::string(d.key) == "Nghost";
        if (!(bound && coords) && !shape && c.chance(1, 6)) {
            if (!shortened.get(d.section, d.key).empty()) {
                ++removed;
            }
            if (bound) { // both bounds, the mesh stays valid
                std::string const k = std::string(d.key).substr(0, 2);
                shortened.unset("Grid", k + "min");
                shortened.unset("Grid", k + "max");
            } else {
                shortened.unset(d.section, d.key);
            }
        }
    }
    // bounds keep the number of iterations in check
    if (shortened.get("Output", "max_iter").empty()) {
        shortened.set("Output", "max_iter", 6);
    }
    Ini full = shortened;
    for (Default const& d : defaults) {
        if (shortened.get(d.section, d.key).empty() && d.value[0] != 0 && c.chance(3, 4)) {
            full.set(d.section, d.key, d.value);
            ++added;
        }
    }
    if (c.b() && shortened.get("Output", "time_first_output").empty()) {
        auto const num = [&](char const* s, char const* k) {
            std::string const v = shortened.get(s, k);
            return v.empty() ? 0. : std::stod(v);
        };
        full.set("Output", "time_first_output", num("Run", "t_ini") + num("Output", "time_frequency"));
        ++added;
    }
    Machine const m = random_machine(c, r, 2);
    c.note("%s + %d defaults | %s", shortened.show().c_str(), added, show(m).c_str());
    std::string const da = scratch_dir("c03a");
    std::string const db = scratch_dir("c03b");
    RunResult const ra = run_program(shortened, da, m);
    RunResult const rb = run_program(full, db, m);
    if (ra.success() != rb.success()) {
        pbt::fail("giving the defaults changes the run: ", ra.describe(), " / ", rb.describe());
    }
    same_outputs(outputs(da), outputs(db), 0, "omitted and default parameters");
    c.nontrivial(ra.success() && added > 0);
}

// BC, BC_Xd, BC_Xd_face: the most specific entry decides
PBT_TEST(boundaries, 2)
{
    RunOpt o;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(2., 8.) * r.dt_est));
    r.ini.set("Output", "max_iter", 8);
    for (int d = 0; d < ndim; ++d) {
        for (char const* s : {"", "_left", "_right"}) {
            r.ini.unset("Boundary Condition", std::string("BC") + bc_dirs(d) + s);
        }
    }
    Ini layered = r.ini;
    Ini plain = r.ini;
    std::vector<std::string> const names {"NullGradient", "Reflexive", "UserDefined"};
    std::string global = c.chance(3, 4) ? c.pick(names) : "";
    if (c.chance(1, 4)) {
        global = "Periodic";
    }
    if (!global.empty()) {
        layered.set("Boundary Condition", "BC", global);
    }
    bool complete = true;
    int levels = 0;
    std::string shown;
    for (int d = 0; d < ndim; ++d) {
        std::string const key = std::string("BC") + bc_dirs(d);
        std::string dir = global;
        if (c.b()) {
            dir = c.chance(1, 3) ? std::string("Periodic") : c.pick(names);
            layered.set("Boundary Condition", key, dir);
            ++levels;
        }
        std::array<std::string, 2> f {dir, dir};
        // a periodic direction is periodic on both faces
        int const which = dir == "Periodic" ? (c.chance(1, 3) ? 3 : 0) : c.i(0, 3);
        bool const both = which == 3 && c.chance(1, 3);
        for (int s = 0; s < 2; ++s) {
            if ((which >> s) & 1) {
                f[s] = both ? std::string("Periodic") : c.pick(names);
                layered.set("Boundary Condition", key + (s == 0 ? "_left" : "_right"), f[s]);
                ++levels;
            }
        }
        for (int s = 0; s < 2; ++s) {
            complete = complete && !f[s].empty();
            plain.set("Boundary Condition", key + (s == 0 ? "_left" : "_right"), f[s]);
            shown += f[s] + (s == 0 ? "/" : " ");
        }
    }
    Machine const m = random_machine(c, r, 2);
    c.note("%s -> %s | %s", layered.show().c_str(), shown.c_str(), show(m).c_str());
    c.nontrivial(levels > 0);
    std::string const da = scratch_dir("c03a");
    RunResult const ra = run_program(layered, da, m);
    if (!complete) {
        c.label("incomplete");
        if (!ra.refused()) {
            pbt::fail("a face without boundary condition is not refused: ", ra.describe());
        }
        return;
    }
    std::string const db = scratch_dir("c03b");
    RunResult const rb = run_program(plain, db, m);
    if (ra.success() != rb.success()) {
        pbt::fail("the runs end differently: ", ra.describe(), " / ", rb.describe());
    }
    same_outputs(outputs(da), outputs(db), 0, "boundaries given at several levels and per face");
}

// names that are not supported stop the run on every process before anything is computed
PBT_TEST(unknown_names, 1)
{
    RunOpt o;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 2.) * r.dt_est));
    r.ini.set("Output", "max_iter", 3);
    int const family = c.i(0, 4);
    std::vector<std::string> const valid[] = {
            {"HLL", "HLLC", "Low Mach"},
            {"Constant", "VanLeer", "Minmod", "VanAlbada"},
            {"NullGradient", "Periodic", "Reflexive", "UserDefined"},
            {"Regular", "UserDefined"},
            {"Off", "Heat_nickel", "UserDefined"},
    };
    std::string s = near_miss(c, valid[family]);
    while (!s.empty() && s.back() == ' ') {
        s.pop_back();
    }
    while (!s.empty() && s.front() == ' ') {
        s.erase(0, 1);
    }
    c.discard_if(std::find(valid[family].begin(), valid[family].end(), s) != valid[family].end());
    switch (family) {
    case 0:
        r.ini.set("Hydro", "riemann_solver", s);
        break;
    case 1:
        r.ini.set("Hydro", "reconstruction", s);
        break;
    case 2:
        r.ini.set("Boundary Condition", std::string("BC") + bc_dirs(c.i(0, ndim - 1)) + c.pick({"_left", "_right"}), s);
        break;
    case 3:
        r.ini.set("Grid", "type", s);
        break;
    default:
        r.ini.set("User step", "user_step", s);
    }
    Machine const m = random_machine(c, r, 4);
    c.note("'%s' %s | %s", s.c_str(), r.ini.show().c_str(), show(m).c_str());
    c.nontrivial();
    std::string const dir = scratch_dir("c03u");
    RunResult const x = run_program(r.ini, dir, m);
    if (!x.refused()) {
        pbt::fail("the name '", s, "' is not refused: ", x.describe());
    }
    if (!outputs(dir).empty()) {
        pbt::fail("the name '", s, "' is refused after an output was written");
    }
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
