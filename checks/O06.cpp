// O06: results do not depend on the order in which cells are processed, nor on the device having its own memory.
#include <runs.hpp>

using namespace hz;

PBT_TEST(order, 1)
{
    RunOpt o;
    o.shift = true;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 10.) * r.dt_est));
    if (c.b()) {
        r.ini.set("Output", "iter_frequency", c.i(1, 3));
    }
    Machine a = random_machine(c, r, 2);
    Machine b = a;
    b.order = c.i(1, 2);
    b.order_seed = c.below(100000);
    b.chunks = c.i(1, 4);
    b.strict = c.b();
    c.note("%s | %s", r.ini.show().c_str(), show(b).c_str());
    std::string const da = scratch_dir("o06a");
    std::string const db = scratch_dir("o06b");
    RunResult const ra = run_program(r.ini, da, a);
    RunResult const rb = run_program(r.ini, db, b);
    if (ra.success() != rb.success()) {
        pbt::fail("the run ends differently: ", ra.describe(), " / ", rb.describe());
    }
    if (!ra.success()) {
        c.discard_if(true);
    }
    same_outputs(outputs(da), outputs(db), 1e-10, pbt::cat("order 0 and order ", b.order, " (", b.order_seed, ")", b.strict ? " with separate memories" : ""));
    c.nontrivial();
    c.label(pbt::cat("order ", b.order, b.strict ? " separate memories" : ""));
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
