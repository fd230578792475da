// A02: broadcasting of values and profiles.
#include <broadcast.hpp>
#include <pbt.hpp>

#include <world.hpp>

using namespace hz;

namespace {

double value(pbt::u64 salt, int i, int j, int k, int n)
{
    pbt::u64 const h = pbt::mix(pbt::mix(salt * 7 + n) + (i * 10007) + (j * 101) + (k * 100003));
    return (static_cast<double>(h >> 12) / 4503599627370496. * 2) - 1;
}

} // namespace

PBT_TEST(broadcast, 1)
{
    reset(c);
    int const n = c.chance(1, 2) ? c.i(2, 6) : 1;
    auto const dims = random_dims(c, n);
    MeshOpt o;
    o.ng_min = 1;
    o.ng_max = 4;
    o.parts = dims;
    Mesh const m = random_mesh(c, o);
    int const nf = c.i(0, 4); // 0: a field, otherwise that many scalars
    bool const profile = c.chance(2, 3);
    double const x = c.sym(1e3);
    pbt::u64 const salt = c.below(1 << 20);
    c.note("%s %s of %d grid=%dx%dx%d", show(m).c_str(), profile ? "profile" : "value", nf, dims[0], dims[1], dims[2]);
    c.label(profile ? "profile" : "value");
    c.nontrivial();
    auto const body = [&](int r) {
        Grid const grid(m.nx, dims, m.ng);
        auto const& e = grid.Nx_local_wg;
        auto const range = grid.range.no_ghosts();
        int const off = grid.range.Corner_min[0];
        KV_double_1d const in("in", grid.Nx_local_ng[0]);
        for (int i = 0; i < in.extent_int(0); ++i) {
            in(i) = value(salt + 1, off + i, 0, 0, 0);
        }
        auto const old = [&](int i, int j, int k, int q) { return value(salt + 2 + r, i, j, k, q); };
        KV_double_3d const a("a", e[0], e[1], e[2]);
        KV_double_4d const b("b", e[0], e[1], e[2], nf);
        fill3(a, [&](int i, int j, int k) { return old(i, j, k, 0); });
        fill4(b, old);
        if (profile) {
            nf == 0 ? hclpp::broadcast(range, in, a) : hclpp::broadcast(range, in, b);
        } else {
            nf == 0 ? hclpp::broadcast(range, x, a) : hclpp::broadcast(range, x, b);
        }
        for (int i = 0; i < e[0]; ++i) {
            for (int j = 0; j < e[1]; ++j) {
                for (int k = 0; k < e[2]; ++k) {
                    bool const inside = interior(grid, i, j, k);
                    for (int q = 0; q < std::max(1, nf); ++q) {
                        double const got = nf == 0 ? a(i, j, k) : b(i, j, k, q);
                        double const ex = !inside ? old(i, j, k, q) : profile ? value(salt + 1, off + i - grid.Nghost[0], 0, 0, 0) : x;
                        REQUIRE(got == ex, inside ? "interior" : "ghost", " cell (", i, ",", j, ",", k, ") of component ", q, " is ", got, " instead of ", ex);
                    }
                }
            }
        }
        for (int i = 0; i < in.extent_int(0); ++i) {
            REQUIRE(in(i) == value(salt + 1, off + i, 0, 0, 0), "the profile was changed");
        }
    };
    if (n == 1) {
        body(0);
    } else {
        ranks(n, body, salt);
    }
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
