// O12: ghost cells are a device: their number changes nothing in the domain.
#include <runs.hpp>

using namespace hz;

namespace {

// the output without the ghost part of the coordinates
H5File inner(H5File f, int ng)
{
    for (int d = 0; d < ndim; ++d) {
        auto const it = f.d.find("x" + std::to_string(d));
        if (it == f.d.end()) {
            pbt::fail("no coordinates in ", f.name);
        }
        auto& v = it->second.v;
        REQUIRE(static_cast<int>(v.size()) > 2 * ng, "too few coordinates in ", f.name);
        v = std::vector<double>(v.begin() + ng, v.end() - ng);
        it->second.dims = {static_cast<long>(v.size())};
    }
    return f;
}
std::map<std::string, H5File> inner(std::map<std::string, H5File> all, int ng)
{
    for (auto& [n, f] : all) {
        f = inner(f, ng);
    }
    return all;
}

} // namespace

PBT_TEST(ghost_layers, 1)
{
    // either time steps that the outputs impose, or problems where all ghost cells are copies of cells of the domain, so that
    // the stability limit (which ghost cells take part in) is the same
    bool const imposed = (run_spherical && ndim > 1) || c.b();
    RunOpt o;
    o.shift = true;
    o.user_parts = imposed;
    RunCase r = random_run(c, o);
    if (!r.uniform) {
        // the width of the cell that enters depends on the last ghost cells
        r.ini.set("Grid", "shift_grid", "None");
    }
    if (imposed) {
        double const tau = c.d(0.05, 0.2) * r.dt_est;
        r.ini.set("Output", "time_frequency", tau);
        r.ini.set("Run", "t_end", r.t_ini + ((c.i(1, 6) + 0.5) * tau));
    } else {
        r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 10.) * r.dt_est));
        r.ini.set("Output", "iter_frequency", c.i(1, 3));
        if (c.chance(1, 3)) {
            r.ini.set("Output", "time_frequency", c.d(0.5, 4.) * r.dt_est);
        }
    }
    int least = r.nx[0];
    for (int d = 1; d < ndim; ++d) {
        least = std::min(least, r.nx[d]);
    }
    int const a = r.ng;
    int b = c.i(2, std::min(a + 2, least));
    c.discard_if(b == a && least < 3);
    if (b == a) {
        b = a == 2 ? 3 : 2;
    }
    r.ng = std::max(a, b);
    Machine const ma = random_machine(c, r, 4);
    Machine const mb = c.b() ? ma : random_machine(c, r, 4);
    Ini ia = r.ini;
    Ini ib = r.ini;
    ia.set("Grid", "Nghost", a);
    ib.set("Grid", "Nghost", b);
    c.note("%s | %d ghost layers, %s | %d ghost layers, %s", r.ini.show().c_str(), a, show(ma).c_str(), b, show(mb).c_str());
    std::string const da = scratch_dir("o12a");
    std::string const db = scratch_dir("o12b");
    RunResult const ra = run_program(ia, da, ma);
    RunResult const rb = run_program(ib, db, mb);
    if (ra.success() != rb.success()) {
        pbt::fail("the run ends differently: ", ra.describe(), " / ", rb.describe());
    }
    c.discard_if(!ra.success());
    auto const oa = outputs(da);
    auto const ob = outputs(db);
    if (imposed) {
        // (a time step that the outputs do not impose)
        for (auto const* x : {&oa, &ob}) {
            for (auto const& [n, f] : *x) {
                c.discard_if(f.integer("iter") != f.integer("output_id"));
            }
        }
    }
    same_outputs(inner(oa, a), inner(ob, b), 1e-9, pbt::cat(a, " and ", b, " ghost layers"));
    c.nontrivial(oa.size() > 1);
    c.label(pbt::cat(std::min(a, b), " and ", std::max(a, b)));
    c.label(imposed ? "time steps of the outputs" : "time steps of the flow");
    c.label(pbt::cat(std::max(ma.n, mb.n), " ranks"));
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
