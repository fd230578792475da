// L01: slope limiters and face reconstruction.
#include <pbt.hpp>

#include <face_reconstruction.hpp>
#include <mesh.hpp>
#include <slope_limiters.hpp>

using namespace hz;

namespace {

char const* const names[] = {"Constant", "VanLeer", "Minmod", "VanAlbada"};

double limiter(int l, double r, double s)
{
    switch (l) {
    case 0: return hclpp::Constant()(r, s);
    case 1: return hclpp::VanLeer()(r, s);
    case 2: return hclpp::Minmod()(r, s);
    default: return hclpp::VanAlbada()(r, s);
    }
}
// textbook forms
double ref_limiter(int l, double r, double s)
{
    if (l == 0 || !(r * s > 0)) {
        return 0;
    }
    if (l == 1) {
        return 2 * r * s / (r + s);
    }
    if (l == 2) {
        return std::abs(r) < std::abs(s) ? r : s;
    }
    return r * s * (r + s) / ((r * r) + (s * s));
}

} // namespace

PBT_TEST(limiters, 4)
{
    int const l = c.i(0, 3);
    double const sc = c.logd(1e-6, 1e6);
    double const r = c.chance(1, 10) ? 0. : sc * c.sym(1.) * c.logd(1e-3, 1e3);
    double const s = c.chance(1, 10) ? r : (c.chance(1, 10) ? 0. : sc * c.sym(1.) * c.logd(1e-3, 1e3));
    c.note("%s right=%.6g left=%.6g", names[l], r, s);
    double const q = limiter(l, r, s);
    c.label(r * s > 0 ? "same sign" : "extremum");
    c.nontrivial(r * s > 0 && l != 0);
    REQUIRE(pbt::close(q, ref_limiter(l, r, s), 1e-12), "limited slope ", q, " expected ", ref_limiter(l, r, s));
    double const lo = std::min({r, s});
    double const hi = std::max({r, s});
    if (r * s > 0) {
        if (l != 0) {
            // an average of the two slopes, never more than twice the smallest
            double const eps = 1e-12 * std::max(std::abs(r), std::abs(s));
            REQUIRE(q * r > 0, "sign of the slope");
            REQUIRE(q >= lo - eps && q <= hi + eps, "limited slope ", q, " is not between ", lo, " and ", hi);
            REQUIRE(std::abs(q) <= 2 * std::min(std::abs(r), std::abs(s)) * (1 + 1e-12), "limited slope too steep");
        }
    } else {
        REQUIRE(q == 0, "slope at an extremum is ", q);
    }
    REQUIRE(pbt::close(limiter(l, s, r), q, 1e-12), "exchange of the two slopes");
    REQUIRE(pbt::close(limiter(l, -r, -s), -q, 1e-12), "odd symmetry");
    double const f = c.logd(1e-3, 1e3);
    REQUIRE(pbt::close(limiter(l, f * r, f * s), f * q, 1e-11), "homogeneity");
}

PBT_TEST(reconstruction, 1)
{
    reset(c);
    MeshOpt o;
    o.max_n = 6;
    Mesh const m = random_mesh(c, o);
    auto const g = make_grid(m);
    int const l = c.i(0, 3);
    auto const rec = hclpp::factory_face_reconstruction(names[l]);
    auto const n = g->Nx_local_wg;
    KV_double_3d const v("v", n[0], n[1], n[2]);
    // 0 random, 1 constant, 2 linear in the cell centres
    int const kind = c.i(0, 2);
    double const a0 = c.sym(10.);
    std::array<double, 3> const a {c.sym(3.), c.sym(3.), c.sym(3.)};
    fill3(v, [&](int i, int j, int k) {
        if (kind == 0) {
            return c.sym(5.);
        }
        double q = a0;
        std::array<int, 3> const p {i, j, k};
        for (int d = 0; kind == 2 && d < ndim; ++d) {
            q += a[d] * (m.x[d][p[d]] + m.x[d][p[d] + 1]) / 2;
        }
        return q;
    });
    c.note("%s %s field=%d gh=1", names[l], show(m).c_str(), kind);
    c.label(kind == 0 ? "random" : kind == 1 ? "constant" : "linear");
    c.nontrivial(kind != 1);
    KV_double_5d const r("r", n[0], n[1], n[2], 2, ndim);
    double const mark = -9999;
    fill_all(r, mark);
    int const gh = c.i(0, m.ng - 1);
    rec->execute(g->range.with_ghosts(gh), *g, v, r);
    check_faults("face reconstruction");
    fill3(v, [&](int i, int j, int k) {
        std::array<int, 3> const p {i, j, k};
        bool inside = true;
        for (int d = 0; d < ndim; ++d) {
            inside = inside && p[d] >= m.ng - gh && p[d] < n[d] - m.ng + gh;
        }
        for (int d = 0; d < ndim; ++d) {
            double const L = r(i, j, k, 0, d);
            double const R = r(i, j, k, 1, d);
            if (!inside) {
                REQUIRE(L == mark && R == mark, "reconstruction wrote outside of its range at ", i, " ", j, " ", k);
                continue;
            }
            auto pm = p;
            auto pp = p;
            --pm[d];
            ++pp[d];
            double const vm = v(pm[0], pm[1], pm[2]);
            double const vc = v(i, j, k);
            double const vp = v(pp[0], pp[1], pp[2]);
            auto const& x = m.x[d];
            int const q = p[d];
            double const xm = (x[q - 1] + x[q]) / 2;
            double const xc = (x[q] + x[q + 1]) / 2;
            double const xp = (x[q + 1] + x[q + 2]) / 2;
            double const sl = (vc - vm) / (xc - xm);
            double const sr = (vp - vc) / (xp - xc);
            double s = ref_limiter(l, sr, sl);
            double const h = x[q + 1] - x[q];
            double const scale = std::max({std::abs(vm), std::abs(vc), std::abs(vp), h * std::abs(sl), h * std::abs(sr)}) + std::abs(x[q] * s);
            REQUIRE(pbt::close(L, vc - (s * h / 2), 1e-11, scale), "left face value in direction ", d, " at ", i, " ", j, " ", k, ": ", L, " expected ", vc - (s * h / 2));
            REQUIRE(pbt::close(R, vc + (s * h / 2), 1e-11, scale), "right face value in direction ", d, " at ", i, " ", j, " ", k, ": ", R, " expected ", vc + (s * h / 2));
            if (kind == 2 && l != 0) {
                double const ex = vc - (a[d] * h / 2);
                REQUIRE(pbt::close(L, ex, 1e-8, scale), "a linear field is not reproduced: ", L, " expected ", ex);
            }
            // conservation of the cell average and no new extremum
            REQUIRE(pbt::close((L + R) / 2, vc, 1e-11, scale), "cell average");
            double lo = std::min({vm, vc, vp});
            double hi = std::max({vm, vc, vp});
            bool uniform = pbt::close(xc - xm, h, 1e-9) && pbt::close(xp - xc, h, 1e-9);
            if (uniform) {
                double const eps = 1e-11 * scale;
                REQUIRE(std::min(L, R) >= lo - eps && std::max(L, R) <= hi + eps, "reconstruction created a new extremum");
            }
        }
        return v(i, j, k);
    });
}

PBT_TEST(unknown_name, 0.1)
{
    std::string s = c.pick<std::string>({"", "vanleer", "Vanleer", "VANLEER", "Superbee", "VanLeer ", " Minmod", "constant", "None", "VanAlbadaa", "Minmo"});
    c.note("name '%s'", s.c_str());
    c.nontrivial();
    bool thrown = false;
    try {
        auto const r = hclpp::factory_face_reconstruction(s);
    } catch (std::exception const&) {
        thrown = true;
    }
    REQUIRE(thrown, "unknown reconstruction '", s, "' accepted");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
