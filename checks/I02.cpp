// I02: every input file shipped with the code base is accepted by its problem and runs to a physical state, whatever the
// resolution, the ghost layers and the machine, with the outputs it asks for and the invariants of its problem.
// Compiled once per input file (INPUT_FILE), with src/setups/<problem>.
#include <runs.hpp>
#include <mesh.hpp>

using namespace hz;

namespace {

std::string trim(std::string s)
{
    auto const a = s.find_first_not_of(" \t\r");
    if (a == std::string::npos) {
        return "";
    }
    auto const b = s.find_last_not_of(" \t\r");
    return s.substr(a, b - a + 1);
}
Ini load(std::string const& path)
{
    std::ifstream f(path);
    if (!f) {
        pbt::fail("no input file ", path);
    }
    Ini ini;
    std::string line;
    std::string section;
    while (std::getline(f, line)) {
        std::string t = trim(line);
        if (t.empty() || t[0] == ';' || t[0] == '#') {
            continue;
        }
        if (t[0] == '[') {
            section = t.substr(1, t.find(']') - 1);
            continue;
        }
        auto const eq = t.find('=');
        if (eq == std::string::npos) {
            pbt::fail("line without a value in ", path, ": ", t);
        }
        // (the text of the value goes to the program as it is, comments included)
        ini.set(section, trim(t.substr(0, eq)), trim(t.substr(eq + 1)));
    }
    return ini;
}
double number(Ini const& ini, char const* s, std::string const& k, double def)
{
    std::string const t = ini.get(s, k);
    return t.empty() ? def : std::stod(t);
}
std::string bc_of(Ini const& ini, int d, int s)
{
    std::string t = ini.get("Boundary Condition", std::string("BC") + bc_dirs(d) + (s == 0 ? "_left" : "_right"));
    if (t.empty()) {
        t = ini.get("Boundary Condition", std::string("BC") + bc_dirs(d));
    }
    if (t.empty()) {
        t = ini.get("Boundary Condition", "BC");
    }
    return t.substr(0, t.find_first_of(" ;"));
}
bool one_of(std::string const& s, std::initializer_list<char const*> l)
{
    for (auto const* x : l) {
        if (s == x) {
            return true;
        }
    }
    return false;
}
double volume(H5File const& f, int ng, std::array<int, 3> const& c)
{
    Mesh m;
    m.ng = ng;
    for (int d = 0; d < 3; ++d) {
        m.x[d] = f.at("x" + std::to_string(d)).v;
        m.ngh[d] = d < ndim ? ng : 0;
    }
    return cell_volume(m, c[0] + m.ngh[0], c[1] + m.ngh[1], c[2] + m.ngh[2]);
}

} // namespace

PBT_TEST(shipped_input, 1)
{
    std::string const name = INPUT_FILE;
    Ini ini = load(std::string(INPUT_DIR) + "/" + name + ".ini");
    bool const profile = name.starts_with("v1d");
    // a 3D sphere with 999 shells is heavy
    int const ng = profile ? 2 : c.i(2, 3);
    std::array<int, 3> nx {1, 1, 1};
    for (int d = 0; d < ndim; ++d) {
        std::string const key = "Nx" + std::to_string(d) + "_glob";
        int const shipped = static_cast<int>(number(ini, "Grid", key, 0));
        REQUIRE(shipped > 0, "no resolution in ", name);
        if (profile && d == 0) {
            nx[d] = shipped;
            continue;
        }
        // ghosts stay off the axis and the origin; an atmosphere needs some cells per scale height
        int const least = run_spherical && d < 2 ? (2 * ng) + 1 : one_of(name, {"stratified_atm", "eq_hydro_sphe"}) ? 50 : ng;
        int const most = profile ? least : ndim == 1 ? 60 : ndim == 2 ? 20 : 9;
        nx[d] = c.i(least, std::max(least, most));
        ini.set("Grid", key, nx[d]);
    }
    if (ng != 2) {
        ini.set("Grid", "Nghost", ng);
    }
    bool const square = one_of(name, {"implosion_test"}) && c.b();
    if (square) {
        nx[1] = nx[0];
        ini.set("Grid", "Nx1_glob", nx[1]);
    }
    int const shipped_max = static_cast<int>(number(ini, "Output", "max_iter", 10000));
    int const iters = std::min(shipped_max, c.i(1, profile ? (ndim == 1 ? 6 : 2) : ndim == 3 ? 5 : 25));
    ini.set("Output", "max_iter", iters);
    bool const often = c.b();
    if (often) {
        ini.set("Output", "iter_frequency", c.i(1, 5));
    }
    if (profile) {
        ini.set("Problem", "init_file", std::string(REPO_DIR) + "/src/setups/v1d/" + fs::path(ini.get("Problem", "init_file")).filename().string());
    }
    RunCase rc;
    rc.nx = nx;
    rc.ng = ng;
    Machine m = c.chance(1, 3) ? random_machine(c, rc, 1) : random_machine(c, rc, profile ? 4 : 6, 6);
    int const window = static_cast<int>(number(ini, "Problem", "cell_shift", 0));
    if (window > 0) {
        // the window of the shift criterion lies in the last process
        m.dims[0] = std::max(1, std::min(m.dims[0], nx[0] / (window + 1)));
        m.n = m.dims[0];
        for (int d = 1; d < ndim; ++d) {
            m.n *= m.dims[d];
        }
        m.perm.clear();
    }
    bool const compare = m.n > 1 && c.b() && name != "rayleigh_taylor3d"; // (which draws random numbers)
    c.note("%s nx=%dx%dx%d ng=%d iters=%d | %s", name.c_str(), nx[0], nx[1], nx[2], ng, iters, show(m).c_str());
    c.nontrivial(iters > 1 || m.n > 1);
    std::string const dir = scratch_dir("i02");
    m.budget = 20000000;
    RunResult const res = run_ok(ini, dir, m);
    auto const files = outputs(dir);
    REQUIRE(!files.empty(), "no output");
    double const t_ini = number(ini, "Run", "t_ini", 0);
    double const t_end = number(ini, "Run", "t_end", 0.2);
    int last_iter = -1;
    double last_time = t_ini;
    std::array<bool, 3> closed {true, true, true};
    bool all_closed = true;
    for (int d = 0; d < ndim; ++d) {
        for (int s = 0; s < 2; ++s) {
            // (gravity across a wall lets some mass through)
            bool const force = number(ini, "Gravity", "gx" + std::to_string(d), 0) != 0;
            closed[d] = closed[d] && (bc_of(ini, d, s) == "Periodic" || (bc_of(ini, d, s) == "Reflexive" && !force));
        }
        all_closed = all_closed && closed[d];
    }
    // totals that nothing changes: no gravity, no heating, no flow through the boundary
    bool force = false;
    for (int d = 0; d < 3; ++d) {
        force = force || number(ini, "Gravity", "gx" + std::to_string(d), 0) != 0;
    }
    bool const isolated = !run_spherical && !force && ini.get("User step", "user_step").empty();
    std::vector<double> energies;
    std::array<std::vector<double>, 3> momenta;
    std::vector<double> masses;
    for (auto const& [n, f] : files) {
        int const iter = f.integer("iter");
        double const t = f.scalar("current_time");
        REQUIRE(iter > last_iter || (iter == last_iter && t >= last_time), "the outputs are not in the order of the iterations");
        REQUIRE(iter <= iters, "iteration ", iter, " of a run of ", iters);
        REQUIRE(t >= last_time && t <= t_end, "time ", t, " after ", last_time, " of a run until ", t_end);
        last_iter = iter;
        last_time = t;
        long const cells = static_cast<long>(nx[0]) * nx[1] * nx[2];
        std::vector<std::string> fields {"rho", "P", "E", "T"};
        for (auto const& k : fields) {
            auto const& v = f.at(k).v;
            REQUIRE(static_cast<long>(v.size()) == cells, k, " has ", v.size(), " values");
            for (double const x : v) {
                REQUIRE(std::isfinite(x) && x > 0, k, " of ", n, " contains ", x);
            }
        }
        for (int d = 0; d < ndim; ++d) {
            for (double const x : f.at("ux" + std::to_string(d)).v) {
                REQUIRE(std::isfinite(x), "velocity of ", n, " contains ", x);
            }
        }
        int const nfx = static_cast<int>(number(ini, "Passive Scalar", "nfx", 0));
        for (int k = 0; k < nfx; ++k) {
            for (double const x : f.at("fx" + std::to_string(k)).v) {
                REQUIRE(std::isfinite(x) && x > -1e-9 && x < 1 + 1e-9, "scalar ", k, " of ", n, " contains ", x);
            }
        }
        long double mass = 0;
        long double energy = 0;
        std::array<long double, 3> momentum {0, 0, 0};
        std::size_t q = 0;
        for (int k = 0; k < nx[2]; ++k) {
            for (int j = 0; j < nx[1]; ++j) {
                for (int i = 0; i < nx[0]; ++i, ++q) {
                    long double const dv = volume(f, ng, {i, j, k});
                    mass += static_cast<long double>(f.at("rho").v[q]) * dv;
                    energy += static_cast<long double>(f.at("E").v[q]) * dv;
                    for (int d = 0; d < ndim; ++d) {
                        momentum[d] += static_cast<long double>(f.at("rho").v[q]) * f.at("ux" + std::to_string(d)).v[q] * dv;
                    }
                }
            }
        }
        masses.push_back(static_cast<double>(mass));
        energies.push_back(static_cast<double>(energy));
        for (int d = 0; d < ndim; ++d) {
            momenta[d].push_back(static_cast<double>(momentum[d]));
        }
        if (name.starts_with("advection")) {
            // a pattern carried by a uniform flow
            double const u0 = number(ini, "Initialisation", "u0", 1);
            double const P0 = number(ini, "Initialisation", "P0", 1);
            for (long x = 0; x < cells; ++x) {
                REQUIRE(pbt::close(f.at("ux0").v[x], u0, 1e-9), "velocity ", f.at("ux0").v[x], " in a flow of ", u0);
                REQUIRE(pbt::close(f.at("P").v[x], P0, 1e-9, P0 + (u0 * u0)), "pressure ", f.at("P").v[x], " in a flow of ", P0);
            }
        }
        if (one_of(name, {"stratified_atm", "eq_hydro_sphe"})) {
            double vmax = 0;
            double cmin = 1e300;
            for (long x = 0; x < cells; ++x) {
                vmax = std::max(vmax, std::abs(f.at("ux0").v[x]));
                cmin = std::min(cmin, std::sqrt(f.at("P").v[x] / f.at("rho").v[x]));
            }
            // (the truncation error of 25 iterations reaches 6.5 / nx^2 and 0.05)
            double const bound = name == "stratified_atm" ? 40. / (nx[0] * nx[0]) : 0.25;
            REQUIRE(vmax <= bound * cmin, "an atmosphere in equilibrium moves at ", vmax, " with a speed of sound of ", cmin, " in ", n);
        }
        if (square) {
            for (int j = 0; j < nx[1]; ++j) {
                for (int i = 0; i < nx[0]; ++i) {
                    std::size_t const a = i + (nx[0] * j);
                    std::size_t const b = j + (nx[0] * i);
                    REQUIRE(pbt::close(f.at("rho").v[a], f.at("rho").v[b], 1e-9, 1), "the implosion is not symmetric");
                    REQUIRE(pbt::close(f.at("ux0").v[a], f.at("ux1").v[b], 1e-9, 1), "the implosion is not symmetric");
                }
            }
        }
    }
    REQUIRE(last_iter == iters || last_time == t_end, "the run ended at iteration ", last_iter, " and time ", last_time);
    if (all_closed) {
        for (double const x : masses) {
            REQUIRE(pbt::close(x, masses.front(), 1e-10), "the mass of a closed box changes from ", masses.front(), " to ", x);
        }
    }
    if (all_closed && isolated) {
        c.label("isolated");
        for (double const x : energies) {
            REQUIRE(pbt::close(x, energies.front(), 1e-10), "the energy of an isolated box changes from ", energies.front(), " to ", x);
        }
        for (int d = 0; d < ndim; ++d) {
            if (bc_of(ini, d, 0) == "Periodic") {
                double const scale = std::sqrt(2 * energies.front() * masses.front());
                for (double const x : momenta[d]) {
                    REQUIRE(std::abs(x - momenta[d].front()) <= 1e-10 * scale, "the momentum ", d, " of an isolated box changes from ", momenta[d].front(), " to ", x);
                }
            }
        }
    }
    if (compare) {
        c.label("compared");
        Machine one;
        one.dims = {1, 1, 1};
        one.budget = m.budget;
        std::string const dir1 = scratch_dir("i02_serial");
        run_ok(ini, dir1, one);
        same_outputs(outputs(dir1), files, 1e-7, "serial run");
    }
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
