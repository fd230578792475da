// O04: outputs happen at the requested iterations and times and the run ends on time.
// The model is the list of events the input file asks for; the history is read from the files of the run and of a twin
// run that saves every iteration.
#include <atomic>
#include <chrono>

#include <runs.hpp>

using namespace hz;

// The clock of the first process of a run, driven by the files that the run has written; real time otherwise.
namespace fake_clock {

std::string dir; // empty: real time
std::int64_t budget = 0; // seconds
int over_id = 0; // the budget is used up once this output exists
std::atomic<int> asked {0};

} // namespace fake_clock

auto std::chrono::steady_clock::now() noexcept -> std::chrono::steady_clock::time_point
{
    timespec ts {};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    std::int64_t s = ts.tv_sec;
    std::int64_t ns = ts.tv_nsec;
    if (!fake_clock::dir.empty()) {
        s = 1000000;
        ns = 0;
        if (vmpi::self().rank == 0) { // the clocks of the others have stopped
            ++fake_clock::asked;
            if (fs::exists(fake_clock::dir + "/" + output_name("result", fake_clock::over_id))) {
                s += fake_clock::budget + 1;
            } else if (fs::exists(fake_clock::dir + "/" + output_name("result", 1))) {
                s += fake_clock::budget - 1;
            }
        }
    }
    return time_point(duration((s * 1000000000) + ns));
}

namespace {

struct Plan
{
    int iter_freq = 0;
    double time_freq = 0;
    double first = 0;
    double t_end = 0;
    int max_iter = 0;
};

Plan random_plan(pbt::Case& c, RunCase& r)
{
    Plan p;
    double const dt = r.dt_est;
    p.t_end = r.t_ini + (dt * c.d(0.3, 14.));
    r.ini.set("Run", "t_end", p.t_end);
    p.max_iter = 10000;
    if (c.chance(1, 3)) {
        p.max_iter = c.i(0, 9);
        r.ini.set("Output", "max_iter", p.max_iter);
    }
    if (c.b()) {
        p.iter_freq = c.i(1, 6);
        r.ini.set("Output", "iter_frequency", p.iter_freq);
    }
    if (c.b()) {
        p.time_freq = c.chance(1, 3) ? (p.t_end - r.t_ini) / c.i(1, 4) : dt * c.d(0.3, 6.);
        r.ini.set("Output", "time_frequency", p.time_freq);
        p.first = r.t_ini + p.time_freq;
        if (c.chance(1, 3)) {
            p.first = r.t_ini + (dt * c.d(0.1, 6.));
            r.ini.set("Output", "time_first_output", p.first);
        }
    } else if (c.chance(1, 5)) {
        // without effect
        r.ini.set("Output", "time_first_output", r.t_ini + dt);
    }
    r.ini.set("Output", "prefix", "out");
    return p;
}

bool near(double a, double b, double unit)
{
    return std::abs(a - b) <= 1e-10 * unit + 1e-14 * std::max(std::abs(a), std::abs(b));
}

} // namespace

PBT_TEST(schedule, 1)
{
    RunCase r = random_run(c);
    Plan const p = random_plan(c, r);
    Machine const m = random_machine(c, r, 3);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());

    std::string const dir = scratch_dir("o04a");
    run_ok(r.ini, dir, m);
    auto const out = outputs(dir);

    // the twin saves every iteration; nothing else may change
    Ini twin = r.ini;
    twin.set("Output", "iter_frequency", 1);
    std::string const dir2 = scratch_dir("o04b");
    run_ok(twin, dir2, m);
    auto const all = outputs(dir2);

    // 1. every iteration: contiguous, time increases, ends on time
    std::vector<H5File const*> step;
    for (auto const& [n, f] : all) {
        int const k = static_cast<int>(step.size());
        if (n != output_name("out", k)) {
            pbt::fail("expected output ", output_name("out", k), " but found ", n);
        }
        if (f.integer("output_id") != k || f.integer("iter") != k) {
            pbt::fail("output ", n, " of a run saving every iteration says output ", f.integer("output_id"), ", iteration ", f.integer("iter"));
        }
        step.push_back(&f);
    }
    if (step.size() < 2) {
        pbt::fail("a run saving every iteration wrote ", step.size(), " files");
    }
    int const last = static_cast<int>(step.size()) - 1;
    double const unit = r.dt_est;
    if (!near(step[0]->scalar("current_time"), r.t_ini, 0)) {
        pbt::fail("the first output has time ", step[0]->scalar("current_time"), " instead of t_ini = ", r.t_ini);
    }
    std::vector<double> t;
    for (auto const* f : step) {
        t.push_back(f->scalar("current_time"));
    }
    for (int k = 1; k <= last; ++k) {
        if (!(t[k] > t[k - 1])) {
            pbt::fail("time does not increase at iteration ", k, ": ", t[k - 1], " -> ", t[k]);
        }
        if (t[k] > p.t_end + 1e-12 * std::abs(p.t_end) + 1e-12 * unit) {
            pbt::fail("iteration ", k, " overshoots t_end: ", t[k], " > ", p.t_end);
        }
    }
    if (last > std::max(1, p.max_iter)) {
        pbt::fail("the run makes ", last, " iterations, max_iter = ", p.max_iter);
    }
    if (last != std::max(1, p.max_iter) && !near(t[last], p.t_end, 1e-4 * unit)) {
        pbt::fail("the run ends at time ", t[last], " after ", last, " iterations; t_end = ", p.t_end, ", max_iter = ", p.max_iter);
    }
    for (int k = 0; k < last; ++k) {
        // an output requested at t_end up to rounding may leave a step of the size of a rounding error
        if (t[k] >= p.t_end - 1e-12 * unit && (k < last - 1 || t[last] - t[k] > 1e-5 * unit)) {
            pbt::fail("the run goes on after reaching t_end at iteration ", k);
        }
    }

    // 2. the requested output times are hit exactly
    std::vector<int> time_outputs;
    if (p.time_freq > 0) {
        for (int q = 0; q < 1000; ++q) {
            double const want = p.first + (q * p.time_freq);
            if (want > p.t_end - 1e-6 * unit) {
                break; // at t_end there is an output anyway
            }
            int hit = -1;
            for (int k = 0; k <= last; ++k) {
                if (near(t[k], want, unit)) {
                    hit = k;
                }
            }
            if (t[last] < want - 1e-6 * unit) {
                break;
            }
            if (hit < 0) {
                pbt::fail("no iteration ends at the requested output time ", want);
            }
            time_outputs.push_back(hit);
        }
    }

    // 3. the step never exceeds cfl * stability limit of the cells, and equals it when nothing clips it
    for (int k = 0; k < last; ++k) {
        double const dt = t[k + 1] - t[k];
        H5File const& f = *step[k];
        auto const& rho = f.at("rho").v;
        auto const& P = f.at("P").v;
        std::array<std::vector<double>, 3> x {f.at("x0_ng").v, f.at("x1_ng").v, f.at("x2_ng").v};
        double worst = 0;
        for (int kk = 0; kk < r.nx[2]; ++kk) {
            for (int j = 0; j < r.nx[1]; ++j) {
                for (int i = 0; i < r.nx[0]; ++i) {
                    std::size_t const q = i + (static_cast<std::size_t>(r.nx[0]) * (j + (static_cast<std::size_t>(r.nx[1]) * kk)));
                    double const cs = std::sqrt(r.gamma * P[q] / rho[q]);
                    std::array<int, 3> const id {i, j, kk};
                    double inv = 0;
                    for (int d = 0; d < ndim; ++d) {
                        double dx = x[d][id[d] + 1] - x[d][id[d]];
                        if (run_spherical && d >= 1) {
                            dx *= (x[0][i] + x[0][i + 1]) / 2;
                        }
                        if (run_spherical && d == 2) {
                            dx *= std::sin((x[1][j] + x[1][j + 1]) / 2);
                        }
                        double const u = f.at("ux" + std::to_string(d)).v[q];
                        inv += (std::abs(u) + cs) / dx;
                    }
                    worst = std::max(worst, inv);
                }
            }
        }
        double const limit = r.cfl / worst;
        if (dt > limit * (1 + 1e-9)) {
            pbt::fail("iteration ", k + 1, ": the time step ", dt, " exceeds cfl times the stability limit, ", limit);
        }
        bool const clipped = k + 1 == last || t[last] - t[k + 1] < 1e-5 * unit || std::find(time_outputs.begin(), time_outputs.end(), k + 1) != time_outputs.end();
        if (!clipped && r.periodic_all && r.uniform && !run_spherical && dt < limit * (1 - 1e-9)) {
            pbt::fail("iteration ", k + 1, ": the time step ", dt, " is smaller than cfl times the stability limit, ", limit, " without an event to reach");
        }
    }

    // 4. the plain run: the same trajectory, saved at the requested moments only
    std::set<int> want;
    if (p.iter_freq > 0 || p.time_freq > 0) {
        want.insert(0);
    }
    if (p.iter_freq > 0) {
        for (int k = p.iter_freq; k <= last; k += p.iter_freq) {
            want.insert(k);
        }
    }
    for (int const k : time_outputs) {
        want.insert(k);
    }
    if (p.time_freq > 0 && last >= 2 && t[last] - t[last - 1] < 1e-5 * unit) {
        want.insert(last - 1); // requested at t_end up to rounding
    }
    want.insert(last);
    std::vector<int> const ids(want.begin(), want.end());
    int k = 0;
    for (auto const& [n, f] : out) {
        if (n != output_name("out", k)) {
            pbt::fail("expected output ", output_name("out", k), " but found ", n);
        }
        int const it = f.integer("iter");
        if (k >= static_cast<int>(ids.size()) || it != ids[k]) {
            pbt::fail("output ", n, " is at iteration ", it, ", expected ", k < static_cast<int>(ids.size()) ? ids[k] : -1);
        }
        if (f.integer("output_id") != k) {
            pbt::fail("output ", n, " says it is output ", f.integer("output_id"));
        }
        H5File a = f;
        H5File b = *step[it];
        for (char const* q : {"output_id", "iter_output_id", "time_output_id"}) {
            a.d.erase(q);
            b.d.erase(q);
        }
        std::string const s = differ(a, b, 0);
        if (!s.empty()) {
            pbt::fail("saving more often changes the state of iteration ", it, ": ", s);
        }
        ++k;
    }
    if (k != static_cast<int>(ids.size())) {
        pbt::fail("the run wrote ", k, " outputs, ", ids.size(), " were requested");
    }
    c.nontrivial(last >= 3 && ids.size() >= 3);
    c.label(pbt::cat(p.iter_freq > 0 ? "iter " : "", p.time_freq > 0 ? "time " : "", last == p.max_iter ? "max_iter" : "t_end"));
}

// a run that is continued with a later final time keeps the schedule of the input file
PBT_TEST(continued, 0.5)
{
    RunCase r = random_run(c);
    double const dt = r.dt_est;
    double const t1 = r.t_ini + (dt * c.d(0.3, 6.));
    double const t2 = t1 + (dt * c.d(1., 8.));
    r.ini.set("Run", "t_end", t1);
    int const fi = c.b() ? c.i(1, 5) : 0;
    double const ft = fi == 0 || c.b() ? dt * c.d(0.6, 5.) : 0;
    if (fi > 0) {
        r.ini.set("Output", "iter_frequency", fi);
    }
    if (ft > 0) {
        r.ini.set("Output", "time_frequency", ft);
    }
    double first = r.t_ini + ft;
    if (ft > 0 && c.chance(1, 3)) {
        first = r.t_ini + (dt * c.d(0.1, 6.));
        r.ini.set("Output", "time_first_output", first);
    }
    Machine const m = random_machine(c, r, 2);
    c.note("%s then t_end=%.17g | %s", r.ini.show().c_str(), t2, show(m).c_str());
    std::string const dir = scratch_dir("o04c");
    run_ok(r.ini, dir, m);
    auto const a = outputs(dir);
    Ini next = r.ini;
    next.set("Run", "t_end", t2);
    next.set("Problem", "restart", "true");
    next.set("Problem", "restart_file", dir + "/" + a.rbegin()->first);
    std::string const dir2 = scratch_dir("o04d");
    run_ok(next, dir2, m);
    auto const b = outputs(dir2);
    int id = a.rbegin()->second.integer("output_id");
    int const iter1 = a.rbegin()->second.integer("iter");
    double const ta = a.rbegin()->second.scalar("current_time");
    std::set<int> iters;
    std::vector<double> times;
    for (auto const& [n, f] : b) {
        ++id;
        if (n != output_name("result", id) || f.integer("output_id") != id) {
            pbt::fail("after the restart, output ", n, " follows output ", id - 1);
        }
        iters.insert(f.integer("iter"));
        times.push_back(f.scalar("current_time"));
    }
    int requested = 0;
    if (ft > 0) {
        for (int q = 0; q < 1000; ++q) {
            double const want = first + (q * ft);
            if (want > t2 - 1e-6 * dt) {
                break;
            }
            if (want < ta + 1e-6 * dt) {
                continue;
            }
            ++requested;
            bool hit = false;
            for (double const t : times) {
                hit = hit || near(t, want, dt);
            }
            if (!hit) {
                pbt::fail("the continued run makes no output at the requested time ", want, " (first part ended at ", ta, ")");
            }
        }
    }
    int const iter2 = b.rbegin()->second.integer("iter");
    if (fi > 0) {
        for (int k = fi; k <= iter2; k += fi) {
            if (k > iter1) {
                ++requested;
                if (iters.count(k) == 0) {
                    pbt::fail("the continued run makes no output at the requested iteration ", k, " (first part ended at iteration ", iter1, ")");
                }
            }
        }
    }
    int allowed = requested + 1; // and the final one
    if (static_cast<int>(b.size()) > allowed) {
        pbt::fail("the continued run makes ", b.size(), " outputs, ", requested, " are requested besides the final one");
    }
    c.nontrivial(requested >= 1);
}

// when the time given to the job is used up, the run stops after one more iteration, with an output, on every process
PBT_TEST(wall_clock, 0.3)
{
    RunCase r = random_run(c);
    int const freq = c.i(1, 4);
    int const over = c.i(1, 3);
    r.ini.set("Run", "t_end", r.t_ini + (r.dt_est * 1e3));
    r.ini.set("Output", "iter_frequency", freq);
    if (c.b()) {
        r.ini.set("Output", "time_frequency", r.dt_est * c.d(0.3, 3.));
    }
    int hours = 20;
    if (c.chance(3, 4)) {
        hours = c.i(1, 100);
        r.ini.set("Output", "time_job", hours);
    }
    int const cap = (over * freq) + 12;
    r.ini.set("Output", "max_iter", cap);
    Machine m = random_machine(c, r, 4);
    m.perm.clear();
    c.note("%s | %s | used up at output %d", r.ini.show().c_str(), show(m).c_str(), over);
    std::string const dir = scratch_dir("o04w");
    fake_clock::budget = 3600L * hours;
    fake_clock::over_id = over;
    fake_clock::asked = 0;
    fake_clock::dir = dir;
    RunResult const res = run_program(r.ini, dir, m);
    fake_clock::dir.clear();
    if (!res.success()) {
        pbt::fail("the run out of time fails: ", res.describe());
    }
    auto const a = outputs(dir);
    auto const at = a.find(output_name("result", over));
    int const last = a.rbegin()->second.integer("iter");
    if (at == a.end()) {
        pbt::fail("the run stops at iteration ", last, " before its time is used up, at output ", over);
    }
    if (last > at->second.integer("iter") + 1) {
        pbt::fail("the time is used up at iteration ", at->second.integer("iter"), ", the run stops at iteration ", last);
    }
    for (std::string const& o : res.out) {
        std::string const label = "number of iterations = ";
        std::size_t const q = o.find(label);
        if (q != std::string::npos && std::atoi(o.c_str() + q + label.size()) != last) {
            pbt::fail("the run stops at iteration ", std::atoi(o.c_str() + q + label.size()), ", the last output is of iteration ", last);
        }
    }
    // as if that iteration had been the last one requested
    Ini ini = r.ini;
    ini.set("Output", "max_iter", last);
    std::string const dir2 = scratch_dir("o04x");
    run_ok(ini, dir2, m);
    same_outputs(outputs(dir2), a, 0, "stopped by the clock");
    c.nontrivial(fake_clock::asked > 2);
    c.label(pbt::cat(m.n, " ranks"));
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
