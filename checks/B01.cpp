// B01: ghost values of the physical boundary conditions.
#include <pbt.hpp>

#include <world.hpp>

using namespace hz;

namespace {

double value(pbt::u64 salt, int f, int i, int j, int k)
{
    pbt::u64 const h = pbt::mix(pbt::mix(salt * 7 + f) + (i * 10007) + (j * 101) + (k * 100003));
    return (static_cast<double>(h >> 12) / 4503599627370496. * 2) - 1;
}

} // namespace

// one condition on one face of one process
PBT_TEST(single_face, 2)
{
    reset(c);
    MeshOpt o;
    o.ng_min = 1;
    o.ng_max = 4;
    o.max_n = 7;
    Mesh const m = random_mesh(c, o);
    int const nfx = c.i(0, 3);
    int const d = c.i(0, ndim - 1);
    int const face = c.i(0, 1);
    Bc const kind = c.pick({Bc::Null, Bc::Reflexive, Bc::Periodic});
    if (kind == Bc::Reflexive && m.nx[d] < m.ngh[d]) {
        throw pbt::Discard();
    }
    pbt::u64 const salt = c.below(1000);
    auto const g = make_grid(m);
    Local const l(*g, nfx);
    int const nf = l.nf();
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < nf; ++f) {
            l.at(f, i, j, k) = value(salt, f, i, j, k);
        }
    });
    c.note("%s %s dim=%d face=%d nfx=%d", show(m).c_str(), bc_name(kind), d, face, nfx);
    c.nontrivial(kind != Bc::Periodic);
    c.label(bc_name(kind));
    auto const bc = hclpp::factory_boundary_construction<UniformGravity>(bc_name(kind), d, face);
    bc->execute(*g, no_gravity(), l.rho, l.rhou, l.E, l.fx);
    l.each([&](int i, int j, int k) {
        std::array<int, 3> p {i, j, k};
        double sign = 1;
        int const ng = m.ngh[d];
        bool const mine = face == 0 ? p[d] < ng : p[d] >= ng + m.nx[d];
        if (mine && kind != Bc::Periodic) {
            Source const s = ghost_source(p[d], ng, m.nx[d], kind, kind);
            p[d] = s.i;
            sign = s.sign;
        }
        for (int f = 0; f < nf; ++f) {
            double const ex = value(salt, f, p[0], p[1], p[2]) * (f == d + 1 ? sign : 1);
            REQUIRE(l.at(f, i, j, k) == ex, field_name(f), "[", f, "] at (", i, ",", j, ",", k, ") is ", l.at(f, i, j, k), " expected ", ex, mine ? " (ghost of this face)" : " (must not be touched)");
        }
    });
    check_faults();
}

// all faces of a domain through the distributed driver
PBT_TEST(all_faces, 2)
{
    reset(c);
    int const n = c.chance(1, 3) ? c.i(2, 6) : 1;
    auto const dims = random_dims(c, n);
    MeshOpt o;
    o.ng_min = 1;
    o.ng_max = 3;
    o.min_n = 3;
    o.max_n = 7;
    o.parts = dims;
    Mesh const m = random_mesh(c, o);
    for (int d = 0; d < ndim; ++d) {
        c.discard_if(m.nx[d] < m.ngh[d] * dims[d]);
    }
    int const nfx = c.i(0, 3);
    auto const bc = random_bcs(c);
    pbt::u64 const salt = c.below(1000);
    bool const aware = c.b();
    World w(m, nfx);
    int f0 = 0;
    for (Global* const p : w.all()) {
        for_each(*p, [&](int i, int j, int k) { (*p)(i, j, k) = value(salt, f0, i, j, k); });
        ++f0;
    }
    fill_ghosts(w, m, bc);
    auto const all = w.all();
    c.note("%s %s ranks=%d %dx%dx%d nfx=%d", show(m).c_str(), show(bc).c_str(), n, dims[0], dims[1], dims[2], nfx);
    c.nontrivial();
    auto const param = make_param(pbt::cat("[Passive Scalar]\nnfx = ", nfx, "\n[Parallelization]\nmpi_device_aware = ", aware ? "true" : "false", "\n"));
    hclpp::Param prm = param;
    prm.nfx = nfx;
    ranks(
            n,
            [&](int) {
                Grid g(m.nx, dims, m.ng);
                set_grid(g, m);
                Local const l(g, nfx);
                auto const lo = g.range.Corner_min;
                l.each([&](int i, int j, int k) {
                    for (int f = 0; f < l.nf(); ++f) {
                        l.at(f, i, j, k) = interior(g, i, j, k) ? (*all[f])(lo[0] + i, lo[1] + j, lo[2] + k) : 1e30;
                    }
                });
                hclpp::DistributedBoundaryCondition const bcs(g, prm);
                bcs(make_bcs(bc), g, no_gravity(), l.rho, l.rhou, l.E, l.fx);
                l.each([&](int i, int j, int k) {
                    for (int f = 0; f < l.nf(); ++f) {
                        double const ex = (*all[f])(lo[0] + i, lo[1] + j, lo[2] + k);
                        REQUIRE(l.at(f, i, j, k) == ex, field_name(f), "[", f, "] at global (", lo[0] + i, ",", lo[1] + j, ",", lo[2] + k, ") is ", l.at(f, i, j, k), " expected ", ex, interior(g, i, j, k) ? " (interior)" : " (ghost)");
                    }
                });
            },
            salt);
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
