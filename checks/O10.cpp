// O10: what a run says is what it did. The report (standard output of all the processes) is compared with the input file,
// the machine and the files of the run.
#include <eos.hpp>
#include <mesh.hpp>
#include <runs.hpp>

#include "config.yaml.hpp"

using namespace hz;

namespace {

std::string all_text(RunResult const& r)
{
    std::string s;
    for (auto const& t : r.out) {
        s += t;
    }
    return s;
}
// every number that follows a label
std::vector<double> after(std::string const& text, std::string const& label)
{
    std::vector<double> v;
    for (std::size_t p = text.find(label); p != std::string::npos; p = text.find(label, p + 1)) {
        std::size_t q = p + label.size();
        while (q < text.size() && (text[q] == ' ' || text[q] == '=' || text[q] == ':')) {
            ++q;
        }
        char* end = nullptr;
        double const x = std::strtod(text.c_str() + q, &end);
        if (end != text.c_str() + q) {
            v.push_back(x);
        }
    }
    return v;
}
double once(std::string const& text, std::string const& label)
{
    auto const v = after(text, label);
    if (v.size() != 1) {
        pbt::fail("the report gives \"", label, "\" ", v.size(), " times instead of once");
    }
    return v[0];
}
// the lines "name......value"
std::multimap<std::string, std::string> entries(std::string const& text)
{
    std::multimap<std::string, std::string> r;
    std::istringstream in(text);
    for (std::string line; std::getline(in, line);) {
        std::size_t const p = line.find("..");
        if (p == 0 || p == std::string::npos || line.find('*') != std::string::npos) {
            continue;
        }
        std::size_t q = p;
        while (q < line.size() && line[q] == '.') {
            ++q;
        }
        r.emplace(line.substr(0, p), line.substr(q));
    }
    return r;
}
std::string entry(std::multimap<std::string, std::string> const& e, std::string const& k)
{
    if (e.count(k) != 1) {
        pbt::fail("the report describes ", k, " ", e.count(k), " times instead of once");
    }
    return e.find(k)->second;
}
// printed with six digits
bool printed(double shown, double x, double abs = 0)
{
    return std::abs(shown - x) <= 6e-6 * std::abs(x) + abs;
}

Mesh mesh_of(H5File const& f, RunCase const& r)
{
    Mesh m;
    m.nx = r.nx;
    m.ng = 0;
    for (int d = 0; d < 3; ++d) {
        m.x[d] = f.at("x" + std::to_string(d) + "_ng").v;
    }
    return m;
}
long double mass_of(H5File const& f, RunCase const& r)
{
    Mesh const m = mesh_of(f, r);
    auto const& rho = f.at("rho").v;
    long double s = 0;
    std::size_t n = 0;
    for (int k = 0; k < r.nx[2]; ++k) {
        for (int j = 0; j < r.nx[1]; ++j) {
            for (int i = 0; i < r.nx[0]; ++i) {
                s += static_cast<long double>(rho[n++]) * cell_volume(m, i, j, k);
            }
        }
    }
    return s;
}

void check_description(std::string const& text, Ini const& ini, RunCase const& r, Machine const& m)
{
    auto const e = entries(text);
    auto const text_is = [&](std::string const& k, std::string const& want) {
        std::string const got = entry(e, k);
        if (got != want) {
            pbt::fail("the report says ", k, " is ", got, ", it is ", want);
        }
    };
    auto const or_else = [&](char const* s, char const* k, std::string const& def) {
        std::string const v = ini.get(s, k);
        return v.empty() ? def : v;
    };
    text_is("setup", "verif");
    text_is("eos", std::string(hclpp::eos_choice));
    text_is("geometry", std::string(hclpp::geom_choice));
#if defined(VERIF_GRAVITY_Internal_mass)
    text_is("gravity", "Internal_mass");
#elif defined(VERIF_GRAVITY_Point_mass)
    text_is("gravity", "Point_mass");
#else
    text_is("gravity", "Uniform");
#endif
    text_is("restart", ini.get("Problem", "restart") == "true" ? "1" : "0");
    text_is("nfx", std::to_string(r.nfx));
    text_is("riemann_solver", ini.get("Hydro", "riemann_solver"));
    text_is("pressure_fix", or_else("Pressure fix", "pressure_fix", "Off"));
    text_is("user_step", or_else("User step", "user_step", "Off"));
    double const eps = std::atof(or_else("Pressure fix", "eps_pf", "1e-6").c_str());
    if (!printed(std::atof(entry(e, "eps_pf").c_str()), eps)) {
        pbt::fail("the report says eps_pf is ", entry(e, "eps_pf"), ", it is ", eps);
    }
    text_is("Ndim", std::to_string(ndim));
    text_is("mpi_size", std::to_string(m.n));
    int parts = 1;
    for (int d = 0; d < 3; ++d) {
        std::string const s = "[" + std::to_string(d) + "]";
        text_is("Nghost" + s, std::to_string(d < ndim ? r.ng : 0));
        text_is("Nx_glob_ng" + s, std::to_string(r.nx[d]));
        text_is("mpi_dims_cart_x" + std::to_string(d), std::to_string(m.dims[d]));
        int const n = std::atoi(entry(e, "mpi_dims_cart" + s).c_str());
        if (m.dims[d] > 0 && n != m.dims[d]) {
            pbt::fail("the report says that direction ", d, " has ", n, " processes, ", m.dims[d], " were asked for");
        }
        parts *= n;
        int const mine = std::atoi(entry(e, "Nx" + s).c_str());
        int const least = r.nx[d] / std::max(1, n);
        if (mine < least || mine > least + (r.nx[d] % std::max(1, n) != 0 ? r.nx[d] : 0)) {
            pbt::fail("the report says that a process has ", mine, " of the ", r.nx[d], " cells of direction ", d, " shared by ", n);
        }
        text_is("Nx_local_wg" + s, std::to_string(mine + (2 * (d < ndim ? r.ng : 0))));
        int const lo = std::atoi(entry(e, "Corner_min" + s).c_str());
        int const hi = std::atoi(entry(e, "Corner_max" + s).c_str());
        if (hi - lo != mine || lo < 0 || hi > r.nx[d]) {
            pbt::fail("the report says that the ", mine, " cells of a process in direction ", d, " go from ", lo, " to ", hi);
        }
    }
    if (parts != m.n) {
        pbt::fail("the report says that the ", m.n, " processes form a grid of ", parts);
    }
}

void check_story(std::string const& text, std::map<std::string, H5File> const& files, double t_end, double t_unit)
{
    // the announcements, in the order of the files
    auto const it = after(text, "current iteration ");
    auto const t = after(text, "current time = ");
    std::vector<double> part; // the share of the time done that follows each time
    for (std::size_t p = text.find("current time = "); p != std::string::npos; p = text.find("current time = ", p + 1)) {
        auto const v = after(text.substr(p, text.find('\n', p) - p), "( ~ ");
        part.push_back(v.empty() ? -1. : v[0]);
    }
    auto const id = after(text, "file number  = ");
    if (it.size() != files.size() || t.size() != files.size() || id.size() != files.size()) {
        pbt::fail("the report announces ", id.size(), " outputs (", it.size(), " iterations, ", t.size(), " times), there are ", files.size(), " files");
    }
    std::size_t k = 0;
    for (auto const& [n, f] : files) {
        if (static_cast<int>(id[k]) != f.integer("output_id") || static_cast<int>(it[k]) != f.integer("iter") || !printed(t[k], f.scalar("current_time"), 1e-12 * t_unit)) {
            pbt::fail("the report announces output ", id[k], " at iteration ", it[k], " and time ", t[k], ", file ", n, " holds output ", f.integer("output_id"), " at iteration ", f.integer("iter"), " and time ", f.scalar("current_time"));
        }
        ++k;
    }
    k = 0;
    for (auto const& [n, f] : files) {
        double const want = 100 * f.scalar("current_time") / t_end;
        if (!printed(part[k], want, 1e-9)) {
            pbt::fail("the report says that ", part[k], " % of the time is done, it is ", want, " %");
        }
        ++k;
    }
    H5File const& last = files.rbegin()->second;
    double const ft = once(text, "Final time = ");
    double const fi = once(text, "number of iterations = ");
    if (!printed(ft, last.scalar("current_time"), 1e-12 * t_unit) || static_cast<int>(fi) != last.integer("iter")) {
        pbt::fail("the report ends with time ", ft, " and iteration ", fi, ", the last file with ", last.scalar("current_time"), " and ", last.integer("iter"));
    }
}
void check_masses(std::string const& text, long double first, long double last)
{
    double const m = once(text, "Initial mass = ");
    double const d = once(text, "change in mass = ");
    double const change = static_cast<double>(std::abs(last - first));
    if (!printed(m, static_cast<double>(first)) || !printed(d, change, 1e-12 * static_cast<double>(first))) {
        pbt::fail("the report says that the initial mass is ", m, " and its change ", d, ", they are ", static_cast<double>(first), " and ", change);
    }
}
void finite_end(RunCase const& r, double& t_end)
{
    if (std::abs(t_end) < 1e-3 * r.dt_est) {
        t_end += r.dt_est; // the share of the time done is a number
    }
}

} // namespace

PBT_TEST(report, 1)
{
    RunOpt o;
    o.shift = true;
    RunCase r = random_run(c, o);
    double t_end = r.t_ini + (r.dt_est * c.d(0.3, 9.));
    finite_end(r, t_end);
    r.ini.set("Run", "t_end", t_end);
    r.ini.set("Output", "iter_frequency", c.i(1, 4));
    if (c.chance(1, 3)) {
        r.ini.set("Output", "time_frequency", r.dt_est * c.d(0.3, 4.));
    }
    // the violent cases would take steps without end
    r.ini.set("Output", "max_iter", c.chance(1, 4) ? c.i(1, 6) : 40);
    Machine const m = random_machine(c, r, 4);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    std::string const dir = scratch_dir("o10a");
    RunResult const res = run_ok(r.ini, dir, m);
    auto const files = outputs(dir);
    std::string const text = all_text(res);
    check_description(text, r.ini, r, m);
    check_story(text, files, t_end, r.dt_est);
    check_masses(text, mass_of(files.begin()->second, r), mass_of(files.rbegin()->second, r));

    // continued from one of its outputs
    int steps = files.rbegin()->second.integer("iter");
    if (c.chance(1, 3)) {
        auto at = files.begin();
        std::advance(at, c.i(0, static_cast<int>(files.size()) - 1));
        double const t0 = at->second.scalar("current_time");
        double t2 = t0 + (r.dt_est * c.d(0.3, 5.));
        finite_end(r, t2);
        if (t2 > t0) {
            Ini next = r.ini;
            next.set("Run", "t_end", t2);
            next.set("Output", "max_iter", 40 + at->second.integer("iter"));
            next.set("Problem", "restart", "true");
            next.set("Problem", "restart_file", dir + "/" + at->first);
            std::string const dir2 = scratch_dir("o10b");
            RunResult const again = run_ok(next, dir2, m);
            std::string const text2 = all_text(again);
            check_description(text2, next, r, m);
            auto const files2 = outputs(dir2);
            check_story(text2, files2, t2, r.dt_est);
            check_masses(text2, mass_of(at->second, r), mass_of(files2.rbegin()->second, r));
            if (text2.find(at->first) == std::string::npos) {
                pbt::fail("the report does not name the restart file ", at->first);
            }
            double const ts = once(text2, "\nat time ");
            double const is = once(text2, ", with iteration ");
            std::size_t const p = text2.find("\nat time ") + 1;
            auto const part = after(text2.substr(p, text2.find('\n', p) - p), "( ~ ");
            if (part.size() != 1 || !printed(part[0], 100 * t0 / t2, 1e-9)) {
                pbt::fail("the report says that the run restarts at ", part.empty() ? -1. : part[0], " % of its time, it is ", 100 * t0 / t2, " %");
            }
            if (!printed(ts, t0, 1e-12 * r.dt_est) || static_cast<int>(is) != at->second.integer("iter")) {
                pbt::fail("the report says that the run restarts at time ", ts, " and iteration ", is, ", the file holds ", t0, " and ", at->second.integer("iter"));
            }
            c.label("restart");
        }
    }
    c.nontrivial(steps >= 2 && files.size() >= 2);
    c.label(pbt::cat(m.n, " ranks"));
}

// a description of the outputs given on the command line is the one that is used
PBT_TEST(description, 0.2)
{
    RunCase r = random_run(c);
    r.ini.set("Run", "t_end", r.t_ini + (r.dt_est * c.d(0.3, 4.)));
    r.ini.set("Output", "iter_frequency", c.i(1, 3));
    Machine const m = random_machine(c, r, 4);
    std::string const dir = scratch_dir("o10c");
    run_ok(r.ini, dir, m);
    std::string const dir2 = scratch_dir("o10d");
    std::string const where = scratch_dir("o10 e") + "/" + c.pick(std::vector<std::string> {"io.yml", "my=io.yml", "a b.yaml"});
    std::string text = io_config;
    std::string const removed = c.pick(std::vector<std::string> {"", "", "rho:", "T:"});
    if (!removed.empty()) {
        // that field is not written
        std::istringstream in(text);
        std::string kept;
        bool datasets = false;
        bool write = false;
        for (std::string line; std::getline(in, line);) {
            if (line.find("on_event:") != std::string::npos) {
                datasets = false;
                write = line.find("write_distributed_data") != std::string::npos;
            }
            datasets = datasets || line.find(" write:") != std::string::npos;
            std::size_t const p = line.find_first_not_of(' ');
            if (write && datasets && p != std::string::npos && line.compare(p, removed.size(), removed) == 0) {
                c.label("changed");
                // skip the block of this entry
                std::streampos at = in.tellg();
                for (std::string next; std::getline(in, next); at = in.tellg()) {
                    std::size_t const q = next.find_first_not_of(' ');
                    if (q <= p) {
                        in.seekg(at);
                        break;
                    }
                }
                write = false;
                continue;
            }
            kept += line + "\n";
        }
        text = kept;
    }
    std::ofstream(where, std::ios::binary) << text;
    c.note("%s | %s | %s without %s", r.ini.show().c_str(), show(m).c_str(), where.c_str(), removed.c_str());
    std::vector<std::string> options {"--pdi-config=" + where};
    if (c.chance(1, 3)) {
        options.insert(options.begin() + c.i(0, 1), "--something=else");
    }
    run_ok(r.ini, dir2, m, options);
    auto a = outputs(dir);
    auto const b = outputs(dir2);
    if (!removed.empty()) {
        for (auto& [n, f] : a) {
            f.d.erase(removed.substr(0, removed.size() - 1));
        }
    }
    same_outputs(a, b, 0, "with the description " + where);
    c.nontrivial(true);
}

// an error is told and is the status of the program
PBT_TEST(error, 0.2)
{
    RunCase r = random_run(c);
    r.ini.set("Run", "t_end", r.t_ini + r.dt_est);
    Machine const m = random_machine(c, r, 3);
    std::string const wrong = c.pick(std::vector<std::string> {"Wrong", "hllc", "HLLD", "vanleer", "Off", "periodic"});
    int const what = c.i(0, 4);
    std::string name = wrong;
    if (what == 0) {
        r.ini.set("Hydro", "riemann_solver", wrong);
    } else if (what == 1) {
        r.ini.set("Hydro", "reconstruction", wrong);
    } else if (what == 2) {
        r.ini.set("Grid", "type", wrong);
    } else if (what == 3) {
        std::string const d = bc_dirs(c.i(0, ndim - 1));
        r.ini.set("Boundary Condition", "BC" + d, wrong);
        r.ini.set("Boundary Condition", "BC" + d + "_left", wrong);
    } else {
        r.ini.set("User step", "user_step", wrong == "Off" ? "off" : wrong);
        name = wrong == "Off" ? "off" : wrong;
    }
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    RunResult const res = run_program(r.ini, scratch_dir("o10f"), m);
    if (!res.refused()) {
        pbt::fail("the run with an unknown name does not end with an error on every process: ", res.describe());
    }
    for (auto const& e : res.err) {
        if (e.find(name) == std::string::npos) {
            pbt::fail("the error message \"", e, "\" does not name what is wrong, ", name);
        }
    }
    c.nontrivial(true);
}

PBT_TEST(usage, 0.02)
{
    install_capture();
    err_text().clear();
    std::string a0 = c.pick(std::vector<std::string> {"heracles", "./bin/heraclespp", "/opt/a/b"});
    std::array<char*, 2> argv {a0.data(), nullptr};
    int const rc = heraclespp_main(1, argv.data());
    std::string const e = err_text();
    if (rc == 0 || e.find("usage") == std::string::npos || e.find(a0.substr(a0.rfind('/') == std::string::npos ? 0 : a0.rfind('/') + 1)) == std::string::npos) {
        pbt::fail("without arguments the program returns ", rc, " and says \"", e, "\"");
    }
    c.nontrivial(true);
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
