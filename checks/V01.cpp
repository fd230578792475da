// V01: the moving grid.
#include <moving_grid.hpp>
#include <pbt.hpp>

#include <world.hpp>

using namespace hz;

namespace {

double value(pbt::u64 salt, int f, int i, int j, int k)
{
    pbt::u64 const h = pbt::mix(pbt::mix(salt * 7 + f) + (i * 10007) + (j * 101) + (k * 100003));
    return (static_cast<double>(h >> 12) / 4503599627370496. * 2) - 1;
}
KDV_double_1d dual(std::vector<double> const& v)
{
    KDV_double_1d const r("x", v.size());
    auto const h = r(hclpp::host, hclpp::discard_write);
    for (std::size_t k = 0; k < v.size(); ++k) {
        h(k) = v[k];
    }
    return r;
}

} // namespace

PBT_TEST(shifts, 1)
{
    reset(c);
    int const n = c.chance(1, 2) ? c.i(2, 6) : 1;
    auto const dims = random_dims(c, n);
    MeshOpt o;
    o.ng_min = 1;
    o.parts = dims;
    o.min_n = 2;
    Mesh const m = random_mesh(c, o);
    int const nfx = c.i(0, 3);
    int const shifts = c.i(1, 4);
    pbt::u64 const salt = c.below(1 << 20);
    c.note("%s shifts=%d nfx=%d grid=%dx%dx%d", show(m).c_str(), shifts, nfx, dims[0], dims[1], dims[2]);
    c.label(pbt::cat("shifts", shifts));
    c.nontrivial();
    // the coordinates after each shift: the last width keeps the ratio of the two before
    std::vector<Mesh> after {m};
    for (int s = 0; s < shifts; ++s) {
        Mesh q = after.back();
        auto& x = q.x[0];
        double const a = x[x.size() - 1] - x[x.size() - 2];
        double const b = x[x.size() - 2] - x[x.size() - 3];
        double const next = x.back() + (a * (a / b));
        x.erase(x.begin());
        x.push_back(next);
        after.push_back(q);
    }
    auto const body = [&](int r) {
        Grid grid(m.nx, dims, m.ng);
        set_grid(grid, m);
        Local a(grid, nfx);
        Local b(grid, nfx);
        auto const lo = grid.range.Corner_min;
        auto const x0 = dual(m.x[0]);
        auto const x1 = dual(m.x[1]);
        auto const x2 = dual(m.x[2]);
        int const n0 = grid.Nx_local_wg[0];
        a.each([&](int i, int j, int k) {
            for (int f = 0; f < a.nf(); ++f) {
                a.at(f, i, j, k) = value(salt, f, lo[0] + i, lo[1] + j, lo[2] + k);
            }
        });
        for (int s = 1; s <= shifts; ++s) {
            b.each([&](int i, int j, int k) {
                for (int f = 0; f < b.nf(); ++f) {
                    b.at(f, i, j, k) = 1e30 + f;
                }
            });
            hclpp::shift_grid(a.rho, a.rhou, a.E, a.fx, b.rho, b.rhou, b.E, b.fx, x0, x1, x2, grid);
            b.each([&](int i, int j, int k) {
                for (int f = 0; f < b.nf(); ++f) {
                    double const got = b.at(f, i, j, k);
                    if (i < n0 - 1) {
                        double const ex = i + s <= n0 - 1 ? value(salt, f, lo[0] + i + s, lo[1] + j, lo[2] + k) : 0;
                        if (i + s <= n0 - 1) {
                            REQUIRE(got == ex, "shift ", s, ": ", field_name(f), "[", f, "] of (", i, ",", j, ",", k, ") is ", got, " instead of ", ex);
                        }
                    }
                    double const before = a.at(f, i, j, k);
                    if (i + s - 1 <= n0 - 1) {
                        REQUIRE(before == value(salt, f, lo[0] + i + s - 1, lo[1] + j, lo[2] + k), "the old arrays were changed");
                    }
                }
            });
            // coordinates, widths, centres and measures describe the moved mesh
            Mesh const& q = after[s];
            auto const h0 = x0(hclpp::host, hclpp::read_only);
            REQUIRE(h0.extent_int(0) == static_cast<int>(q.x[0].size()), "number of faces");
            double const len = std::abs(q.x[0].back()) + std::abs(q.x[0].front());
            for (std::size_t i = 0; i < q.x[0].size(); ++i) {
                REQUIRE(pbt::close(h0(i), q.x[0][i], 1e-12, 1e-2 * len), "shift ", s, ": global face ", i, " at ", h0(i), " instead of ", q.x[0][i]);
            }
            auto const h1 = x1(hclpp::host, hclpp::read_only);
            auto const h2 = x2(hclpp::host, hclpp::read_only);
            for (std::size_t i = 0; i < m.x[1].size(); ++i) {
                REQUIRE(h1(i) == m.x[1][i], "the faces of the second direction moved");
            }
            for (std::size_t i = 0; i < m.x[2].size(); ++i) {
                REQUIRE(h2(i) == m.x[2][i], "the faces of the third direction moved");
            }
            std::array<KV_double_1d, 3> const gx {grid.x0, grid.x1, grid.x2};
            std::array<KV_double_1d, 3> const gc {grid.x0_center, grid.x1_center, grid.x2_center};
            std::array<KV_double_1d, 3> const gd {grid.dx0, grid.dx1, grid.dx2};
            for (int d = 0; d < 3; ++d) {
                double const scale = std::abs(q.x[d].back()) + std::abs(q.x[d].front());
                for (int i = 0; i < gx[d].extent_int(0); ++i) {
                    REQUIRE(pbt::close(gx[d](i), q.x[d][lo[d] + i], 1e-12, scale), "shift ", s, ": local face ", i, " of direction ", d, " at ", gx[d](i), " instead of ", q.x[d][lo[d] + i]);
                }
                for (int i = 0; i < gd[d].extent_int(0); ++i) {
                    REQUIRE(pbt::close(gd[d](i), q.x[d][lo[d] + i + 1] - q.x[d][lo[d] + i], 1e-12, scale), "shift ", s, ": width ", i, " of direction ", d, " is ", gd[d](i));
                    REQUIRE(pbt::close(gc[d](i), (q.x[d][lo[d] + i + 1] + q.x[d][lo[d] + i]) / 2, 1e-12, scale), "shift ", s, ": centre ", i, " of direction ", d, " is ", gc[d](i));
                }
            }
            a.each([&](int i, int j, int k) {
                double const v = cell_volume(q, lo[0] + i, lo[1] + j, lo[2] + k);
                REQUIRE(pbt::close(grid.dv(i, j, k), v, 1e-9), "shift ", s, ": volume of (", i, ",", j, ",", k, ") is ", grid.dv(i, j, k), " instead of ", v);
                for (int d = 0; d < ndim; ++d) {
                    double const f = face_area(q, d, lo[0] + i, lo[1] + j, lo[2] + k);
                    REQUIRE(pbt::close(grid.ds(i, j, k, d), f, 1e-9), "shift ", s, ": area ", d, " of (", i, ",", j, ",", k, ") is ", grid.ds(i, j, k, d), " instead of ", f);
                }
            });
            std::swap(a, b);
            (void)r;
        }
    };
    if (n == 1) {
        body(0);
    } else {
        ranks(n, body, salt);
    }
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
