// O05: the same input gives the same outputs on any process grid, rank numbering and message order.
#include <runs.hpp>

using namespace hz;

PBT_TEST(decomposition, 1)
{
    RunOpt o;
    o.shift = true;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 10.) * r.dt_est));
    int const f = c.i(0, 3);
    if (f > 0) {
        r.ini.set("Output", "iter_frequency", f);
    }
    if (c.chance(1, 3)) {
        r.ini.set("Output", "time_frequency", c.d(0.5, 4.) * r.dt_est);
    }
    Machine const a = c.chance(1, 4) ? random_machine(c, r, 6) : Machine {};
    Machine const b = random_parallel(c, r, 6);
    c.note("%s | %s | %s", r.ini.show().c_str(), show(a).c_str(), show(b).c_str());
    std::string const da = scratch_dir("o05a");
    std::string const db = scratch_dir("o05b");
    RunResult const ra = run_program(r.ini, da, a);
    RunResult const rb = run_program(r.ini, db, b);
    if (ra.success() != rb.success()) {
        pbt::fail("the run ends differently: ", ra.describe(), " / ", rb.describe());
    }
    if (!ra.success()) {
        c.discard_if(true);
    }
    same_outputs(outputs(da), outputs(db), 1e-10, pbt::cat(show(a), " and ", show(b)));
    c.nontrivial(std::max(a.n, b.n) > 1);
    c.label(pbt::cat(b.n, " ranks"));
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
