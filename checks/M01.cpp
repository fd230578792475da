// M01: domain decomposition, local coordinates and iteration ranges.
#include <pbt.hpp>

#include <grid_factory.hpp>
#include <grid_type.hpp>
#include <inih/INIReader.hpp>
#include <mesh.hpp>
#include <param.hpp>

using namespace hz;

namespace {

// a random factorisation of n in the first ndim directions
std::array<int, 3> random_dims(pbt::Case& c, int n)
{
    std::array<int, 3> d {1, 1, 1};
    int rest = n;
    for (int p = 2; p <= rest;) {
        if (rest % p == 0) {
            d[c.i(0, ndim - 1)] *= p;
            rest /= p;
        } else {
            ++p;
        }
    }
    return d;
}

struct Rec
{
    std::array<int, 3> lo, hi, coord, dims, nloc, nwg, ngh;
    std::array<std::array<bool, 2>, 3> border;
    std::array<std::array<int, 2>, 3> nb;
    int cart_rank, horizontal;
    double horizontal_sum;
    std::array<std::vector<double>, 3> x, xc, dx;
    std::vector<double> dv, ds;
};

} // namespace

PBT_TEST(partition, 1)
{
    reset(c);
    int const n = c.i(1, 12);
    auto const full = random_dims(c, n);
    // user request: 0 means "chosen by MPI"
    std::array<int, 3> req {0, 0, 0};
    bool const partial = c.b();
    for (int d = 0; d < 3; ++d) {
        req[d] = partial && c.b() ? 0 : full[d];
    }
    if (c.chance(1, 4)) {
        req = {0, 0, 0};
    }
    // cells: at least as many as the ghost depth in each part, whatever decomposition is chosen
    MeshOpt o;
    o.ng_min = 1;
    o.ng_max = 3;
    bool const free_choice = req[0] * req[1] * req[2] == 0;
    o.parts = full;
    o.max_n = 14;
    if (free_choice) {
        for (int d = 0; d < ndim; ++d) {
            o.parts[d] = req[d] == 0 ? n : full[d];
        }
    }
    Mesh const m = random_mesh(c, o);
    auto const perm = random_perm(c, n);
    std::vector<Rec> recs(n);
    c.note("%s ranks=%d request=%dx%dx%d", show(m).c_str(), n, req[0], req[1], req[2]);
    c.nontrivial(n > 1);
    bool uneven = false;
    auto const one = make_grid(m, {1, 1, 1});
    ranks(
            n,
            [&](int r) {
                Grid g(m.nx, req, m.ng);
                set_grid(g, m);
                Rec& q = recs[r];
                q.lo = g.range.Corner_min;
                q.hi = g.range.Corner_max;
                q.coord = g.mpi_rank_cart;
                q.dims = g.mpi_dims_cart;
                q.nloc = g.Nx_local_ng;
                q.nwg = g.Nx_local_wg;
                q.ngh = g.Nghost;
                q.border = g.is_border;
                q.cart_rank = g.mpi_rank;
                REQUIRE(g.mpi_size == n, "size of the communicator");
                for (int d = 0; d < 3; ++d) {
                    MPI_Cart_shift(g.comm_cart, d, 1, &q.nb[d][0], &q.nb[d][1]);
                }
                MPI_Comm_size(g.comm_cart_horizontal, &q.horizontal);
                double s = q.coord[0];
                MPI_Allreduce(MPI_IN_PLACE, &s, 1, MPI_DOUBLE, MPI_SUM, g.comm_cart_horizontal);
                q.horizontal_sum = s;
                std::array<KV_double_1d, 3> const x {g.x0, g.x1, g.x2};
                std::array<KV_double_1d, 3> const xc {g.x0_center, g.x1_center, g.x2_center};
                std::array<KV_double_1d, 3> const dx {g.dx0, g.dx1, g.dx2};
                for (int d = 0; d < 3; ++d) {
                    REQUIRE(x[d].extent_int(0) == q.nwg[d] + 1 && xc[d].extent_int(0) == q.nwg[d] && dx[d].extent_int(0) == q.nwg[d], "coordinate array sizes");
                    for (int i = 0; i <= q.nwg[d]; ++i) {
                        REQUIRE(x[d](i) == m.x[d].at(q.lo[d] + i), "face coordinate ", i, " of direction ", d, " on rank ", r, ": ", x[d](i), " expected ", m.x[d].at(q.lo[d] + i));
                    }
                    for (int i = 0; i < q.nwg[d]; ++i) {
                        double const a = m.x[d][q.lo[d] + i];
                        double const b = m.x[d][q.lo[d] + i + 1];
                        REQUIRE(pbt::close(dx[d](i), b - a, 1e-12, std::abs(a) + std::abs(b)), "cell width");
                        REQUIRE(pbt::close(xc[d](i), (a + b) / 2, 1e-12, std::abs(a) + std::abs(b)), "cell centre");
                    }
                }
                // the local mesh is a window on the one of a single process
                hz::fill3(g.dv, [&](int i, int j, int k) {
                    double const ex = one->dv(q.lo[0] + i, q.lo[1] + j, q.lo[2] + k);
                    REQUIRE(pbt::close(g.dv(i, j, k), ex, 1e-13), "cell volume depends on the decomposition at ", i, " ", j, " ", k, ": ", g.dv(i, j, k), " expected ", ex);
                    for (int d = 0; d < ndim; ++d) {
                        double const e2 = one->ds(q.lo[0] + i, q.lo[1] + j, q.lo[2] + k, d);
                        REQUIRE(pbt::close(g.ds(i, j, k, d), e2, 1e-13), "face area depends on the decomposition");
                    }
                    return g.dv(i, j, k);
                });
            },
            c.below(100),
            perm);
    // ---- global checks
    std::array<int, 3> const dims = recs[0].dims;
    REQUIRE(dims[0] * dims[1] * dims[2] == n, "decomposition ", dims[0], "x", dims[1], "x", dims[2], " for ", n, " processes");
    for (int d = 0; d < 3; ++d) {
        REQUIRE(d < ndim || dims[d] == 1, "decomposition of an inactive direction");
        REQUIRE(d >= ndim || req[d] == 0 || dims[d] == req[d], "the requested decomposition is not respected");
    }
    std::vector<int> owner(m.nx[0] * m.nx[1] * m.nx[2], -1);
    std::set<std::array<int, 3>> coords;
    for (int r = 0; r < n; ++r) {
        Rec const& q = recs[r];
        coords.insert(q.coord);
        REQUIRE(q.dims == dims, "processes disagree on the decomposition");
        for (int d = 0; d < 3; ++d) {
            int const gh = d < ndim ? m.ng : 0;
            REQUIRE(q.ngh[d] == gh, "ghost depth");
            REQUIRE(q.nloc[d] == q.hi[d] - q.lo[d], "local size");
            REQUIRE(q.nwg[d] == q.nloc[d] + (2 * gh), "local size with ghosts");
            int const base = m.nx[d] / dims[d];
            REQUIRE(q.nloc[d] == base || q.nloc[d] == base + 1, "unbalanced decomposition: ", q.nloc[d], " cells of ", m.nx[d], " on ", dims[d], " parts");
            uneven = uneven || q.nloc[d] != base;
            REQUIRE(q.border[d][0] == (q.lo[d] == 0) && q.border[d][1] == (q.hi[d] == m.nx[d]), "domain border flags of rank ", r, " in direction ", d);
        }
        for (int k = q.lo[2]; k < q.hi[2]; ++k) {
            for (int j = q.lo[1]; j < q.hi[1]; ++j) {
                for (int i = q.lo[0]; i < q.hi[0]; ++i) {
                    REQUIRE(i >= 0 && i < m.nx[0] && j >= 0 && j < m.nx[1] && k >= 0 && k < m.nx[2], "cell outside of the domain");
                    int& w = owner[i + (m.nx[0] * (j + (m.nx[1] * k)))];
                    REQUIRE(w == -1, "cell ", i, " ", j, " ", k, " owned by ranks ", w, " and ", r);
                    w = r;
                }
            }
        }
        REQUIRE(q.horizontal == dims[1] * dims[2], "size of the communicator of a layer");
        REQUIRE(q.horizontal_sum == static_cast<double>(q.coord[0]) * dims[1] * dims[2], "the communicator of a layer mixes layers");
    }
    for (int const w : owner) {
        REQUIRE(w >= 0, "a cell is not owned by any process");
    }
    REQUIRE(static_cast<int>(coords.size()) == n, "two processes at the same place");
    // neighbours hold the adjacent cells (periodically)
    std::vector<int> by_cart(n);
    for (int r = 0; r < n; ++r) {
        by_cart[recs[r].cart_rank] = r;
    }
    for (int r = 0; r < n; ++r) {
        for (int d = 0; d < 3; ++d) {
            Rec const& q = recs[r];
            REQUIRE(q.nb[d][1] >= 0 && q.nb[d][1] < n, "no neighbour: the process grid is not periodic");
            Rec const& p = recs[by_cart[q.nb[d][1]]];
            REQUIRE(p.lo[d] == q.hi[d] % m.nx[d], "the next process does not hold the next cells");
            for (int e = 0; e < 3; ++e) {
                REQUIRE(e == d || (p.lo[e] == q.lo[e] && p.hi[e] == q.hi[e]), "neighbours are not aligned");
            }
        }
    }
    c.label(uneven ? "uneven" : "even");
    check_faults();
}

PBT_TEST(ranges, 2)
{
    reset(c);
    std::array<int, 3> lo {};
    std::array<int, 3> hi {};
    int const ng = c.i(0, 4);
    for (int d = 0; d < 3; ++d) {
        lo[d] = c.i(0, 6);
        hi[d] = lo[d] + c.i(1, d < ndim ? 6 : 1);
    }
    hclpp::Range const r(lo, hi, ng);
    int const q = c.i(0, 5);
    c.note("box %d-%d %d-%d %d-%d ng=%d asked=%d", lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], ng, q);
    if (q > ng) {
        bool thrown = false;
        try {
            (void)r.with_ghosts(q);
        } catch (std::exception const&) {
            thrown = true;
        }
        REQUIRE(thrown, "more ghost cells than available accepted");
        c.nontrivial();
        return;
    }
    hclpp::Range const w = q == 0 && c.b() ? r.no_ghosts() : q == ng && c.b() ? r.all_ghosts() : r.with_ghosts(q);
    REQUIRE(w.Corner_min == lo && w.Corner_max == hi, "corners");
    std::map<std::array<int, 3>, int> visited;
    std::mutex mx;
    auto* const vp = &visited;
    Kokkos::parallel_for("visit", hclpp::cell_mdrange(w), KOKKOS_LAMBDA(int i, int j, int k) { ++(*vp)[{i, j, k}]; });
    auto const [b, e] = hclpp::cell_range(w);
    long total = 1;
    for (int d = 0; d < 3; ++d) {
        int const nghost = d < ndim ? ng : 0;
        int const eff = d < ndim ? q : 0;
        REQUIRE(b[d] == nghost - eff, "first cell in direction ", d, ": ", b[d], " expected ", nghost - eff);
        REQUIRE(e[d] == nghost + hi[d] - lo[d] + eff, "end cell in direction ", d, ": ", e[d]);
        total *= hi[d] - lo[d] + (2 * eff);
    }
    c.nontrivial(q > 0);
    REQUIRE(static_cast<long>(visited.size()) == total, "number of visited cells ", visited.size(), " expected ", total);
    for (auto const& [p, n] : visited) {
        REQUIRE(n == 1, "a cell is visited twice");
        for (int d = 0; d < 3; ++d) {
            REQUIRE(p[d] >= b[d] && p[d] < e[d], "a cell outside of the range is visited");
        }
    }
    check_faults();
}

PBT_TEST(invalid_ranges, 0.3)
{
    std::array<int, 3> lo {};
    std::array<int, 3> hi {};
    bool bad = false;
    for (int d = 0; d < 3; ++d) {
        lo[d] = c.i(-2, 5);
        hi[d] = c.i(-2, 7);
        bad = bad || lo[d] < 0 || hi[d] < 0 || lo[d] > hi[d];
    }
    c.note("box %d-%d %d-%d %d-%d", lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
    bool thrown = false;
    try {
        hclpp::Range const r(lo, hi, 2);
    } catch (std::exception const&) {
        thrown = true;
    }
    c.nontrivial(bad);
    REQUIRE(thrown == bad, "box validity");
}

PBT_TEST(regular_mesh, 1)
{
    reset();
    std::array<int, 3> nx {};
    std::array<int, 3> ngh {};
    std::array<double, 3> lo {};
    std::array<double, 3> hi {};
    std::string ini = "[Grid]\n";
    for (int d = 0; d < 3; ++d) {
        nx[d] = c.i(1, 40);
        ngh[d] = c.i(0, 4);
        lo[d] = c.sym(100.);
        hi[d] = lo[d] + c.logd(1e-3, 1e3);
        ini += pbt::cat("x", d, "min = ", lo[d], "\nx", d, "max = ", hi[d], "\nNx", d, "_glob = ", nx[d], "\n");
        c.note("[%g,%g]/%d", lo[d], hi[d], nx[d]);
    }
    c.nontrivial();
    INIReader const reader(write_text("g.ini", ini));
    hclpp::Param const param(reader);
    auto const t = hclpp::factory_grid_type("Regular", param);
    std::array<hclpp::KVH_double_1d, 3> x;
    for (int d = 0; d < 3; ++d) {
        x[d] = hclpp::KVH_double_1d("x", nx[d] + (2 * ngh[d]) + 1);
    }
    t->execute(ngh, nx, x[0], x[1], x[2]);
    for (int d = 0; d < 3; ++d) {
        double const w = (hi[d] - lo[d]) / nx[d];
        for (int i = 0; i < x[d].extent_int(0); ++i) {
            double const ex = lo[d] + ((i - ngh[d]) * w);
            REQUIRE(pbt::close(x[d](i), ex, 1e-12, std::abs(lo[d]) + std::abs(hi[d]) + (w * ngh[d])), "face ", i, " of direction ", d, ": ", x[d](i), " expected ", ex);
        }
    }
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
