// B02: ghost exchange between processes.
#include <pbt.hpp>

#include <world.hpp>

using namespace hz;

namespace {

double value(pbt::u64 salt, int f, int i, int j, int k)
{
    pbt::u64 const h = pbt::mix(pbt::mix(salt * 7 + f) + (i * 10007) + (j * 101) + (k * 100003));
    return (static_cast<double>(h >> 12) / 4503599627370496. * 2) - 1;
}

void exchange_case(pbt::Case& c, int n, int rounds)
{
    auto const dims = random_dims(c, n);
    MeshOpt o;
    o.ng_min = 1;
    o.ng_max = 3;
    o.max_n = 9;
    o.parts = dims;
    Mesh const m = random_mesh(c, o);
    for (int d = 0; d < ndim; ++d) {
        c.discard_if(m.nx[d] < m.ngh[d] * dims[d]);
    }
    int const nfx = c.i(0, 3);
    // mostly periodic, sometimes a physical face
    std::array<std::array<Bc, 2>, 3> bc {};
    for (auto& b : bc) {
        for (Bc& x : b) {
            x = c.chance(1, 4) ? c.pick({Bc::Null, Bc::Reflexive}) : Bc::Periodic;
        }
    }
    bool const aware = c.b();
    pbt::u64 const salt = c.below(100000);
    auto const perm = random_perm(c, n);
    std::vector<World> w;
    for (int r = 0; r < rounds; ++r) {
        World q(m, nfx);
        int f0 = 0;
        for (Global* const p : q.all()) {
            for_each(*p, [&](int i, int j, int k) { (*p)(i, j, k) = value(salt + (r * 17), f0, i, j, k); });
            ++f0;
        }
        fill_ghosts(q, m, bc);
        w.push_back(std::move(q));
    }
    c.note("%s %s ranks=%d %dx%dx%d nfx=%d rounds=%d", show(m).c_str(), show(bc).c_str(), n, dims[0], dims[1], dims[2], nfx, rounds);
    c.nontrivial(n > 1);
    c.label(pbt::cat("ranks", n));
    auto param = make_param("");
    param.nfx = nfx;
    param.mpi_device_aware = aware;
    ranks(
            n,
            [&](int) {
                Grid g(m.nx, dims, m.ng);
                set_grid(g, m);
                Local const l(g, nfx);
                auto const lo = g.range.Corner_min;
                hclpp::DistributedBoundaryCondition const bcs(g, param);
                auto const faces = make_bcs(bc);
                for (int r = 0; r < rounds; ++r) {
                    auto const all = w[r].all();
                    l.each([&](int i, int j, int k) {
                        for (int f = 0; f < l.nf(); ++f) {
                            if (interior(g, i, j, k)) {
                                l.at(f, i, j, k) = (*all[f])(lo[0] + i, lo[1] + j, lo[2] + k);
                            } else if (r == 0) {
                                l.at(f, i, j, k) = 1e30;
                            }
                        }
                    });
                    bcs(faces, g, no_gravity(), l.rho, l.rhou, l.E, l.fx);
                    l.each([&](int i, int j, int k) {
                        for (int f = 0; f < l.nf(); ++f) {
                            double const ex = (*all[f])(lo[0] + i, lo[1] + j, lo[2] + k);
                            REQUIRE(l.at(f, i, j, k) == ex, "round ", r, " ", field_name(f), "[", f, "] at global (", lo[0] + i, ",", lo[1] + j, ",", lo[2] + k, ") is ", l.at(f, i, j, k), " expected ", ex, interior(g, i, j, k) ? " (interior)" : " (ghost)");
                        }
                    });
                }
            },
            salt,
            perm);
}

} // namespace

PBT_TEST(few, 2)
{
    reset(c);
    exchange_case(c, c.i(2, 4), c.i(1, 3));
}
PBT_TEST(many, 1)
{
    reset(c);
    exchange_case(c, c.i(5, 12), c.i(1, 2));
}
PBT_TEST(wrap_on_itself, 1)
{
    reset(c);
    exchange_case(c, 1, c.i(1, 2));
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
