// M02: cell volumes and face areas are those of the geometry.
#include <pbt.hpp>

#include <mesh.hpp>

using namespace hz;

namespace {

double exact_area(Mesh const& m, int d, int i, int j, int k)
{
    if (spherical && d == 2) { // half-plane of constant azimuth
        auto const& r = m.x[0];
        auto const& th = m.x[1];
        return (r[i + 1] - r[i]) * (r[i + 1] + r[i]) / 2 * (th[j + 1] - th[j]);
    }
    return face_area(m, d, i, j, k);
}

} // namespace

PBT_TEST(measures, 1)
{
    reset(c);
    MeshOpt o;
    o.ng_min = 1;
    o.max_n = 8;
    Mesh const m = random_mesh(c, o);
    auto const g = make_grid(m);
    c.note("%s", show(m).c_str());
    c.nontrivial();
    fill3(g->dv, [&](int i, int j, int k) {
        double const v = cell_volume(m, i, j, k);
        REQUIRE(pbt::close(g->dv(i, j, k), v, 1e-10), "volume of cell ", i, " ", j, " ", k, ": ", g->dv(i, j, k), " expected ", v);
        for (int d = 0; d < ndim; ++d) {
            double const a = exact_area(m, d, i, j, k);
            REQUIRE(pbt::close(g->ds(i, j, k, d), a, 1e-10), "area of face ", d, " of cell ", i, " ", j, " ", k, ": ", g->ds(i, j, k, d), " expected ", a);
            REQUIRE(g->ds(i, j, k, d) > 0, "area > 0");
        }
        return g->dv(i, j, k);
    });
    check_faults();
}

// refinement: merging cells adds volumes, and adds the areas of the faces that tile a larger face
PBT_TEST(additivity, 1)
{
    reset(c);
    MeshOpt o;
    o.ng_min = 1;
    o.ng_max = 1;
    o.max_n = 7;
    Mesh const m = random_mesh(c, o);
    int const d = c.i(0, ndim - 1);
    // remove one interior face of direction d: two cells merge
    Mesh q = m;
    c.discard_if(m.nx[d] < 2);
    int const f = c.i(m.ng + 1, m.ng + m.nx[d] - 1);
    q.x[d].erase(q.x[d].begin() + f);
    q.nx[d] -= 1;
    auto const a = make_grid(m);
    auto const b = make_grid(q);
    c.note("%s merge d=%d at face %d", show(m).c_str(), d, f);
    c.nontrivial();
    fill3(b->dv, [&](int i, int j, int k) {
        std::array<int, 3> p {i, j, k};
        std::array<int, 3> p2 {i, j, k};
        int const s = p[d];
        if (s >= f) {
            p[d] = s + 1;
        }
        p2 = p;
        if (s == f - 1) {
            p2[d] = s + 1;
        }
        double ex = a->dv(p[0], p[1], p[2]);
        bool const merged = s == f - 1;
        if (merged) {
            ex += a->dv(p2[0], p2[1], p2[2]);
        }
        REQUIRE(pbt::close(b->dv(i, j, k), ex, 1e-9), "volumes do not add up: ", b->dv(i, j, k), " and ", ex);
        for (int e = 0; e < ndim; ++e) {
            double sx = a->ds(p[0], p[1], p[2], e);
            if (merged && e != d) {
                sx += a->ds(p2[0], p2[1], p2[2], e);
            }
            REQUIRE(pbt::close(b->ds(i, j, k, e), sx, 1e-9), "areas of face ", e, " do not add up: ", b->ds(i, j, k, e), " and ", sx);
        }
        return b->dv(i, j, k);
    });
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
