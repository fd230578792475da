// T02: conversions between primitive and conservative variables, and the physical flux.
#include <pbt.hpp>

#include <array_conversion.hpp>
#include <mesh.hpp>
#include <states.hpp>

using namespace hz;

namespace {

double vmax(EulerPrim const& p, RefEos const& e)
{
    double v = e.sound(p.rho, p.P);
    for (int d = 0; d < ndim; ++d) {
        v = std::max(v, std::abs(p.u[d]));
    }
    return v;
}

} // namespace

PBT_TEST(pointwise, 4)
{
    reset();
    RefEos const e = random_eos(c);
    EOS const eos(e.gamma, e.mu);
    EulerPrim const p = random_prim(c, e, c.b() ? 1. : 100.);
    c.note("gamma=%.4g %s", e.gamma, show(p).c_str());
    c.nontrivial();
    double const v = vmax(p, e);
    double const sE = p.rho * v * v;
    EulerCons const q = to_cons(p, eos);
    EulerCons const r = ref_cons(p, e);
    REQUIRE(pbt::close(q.rho, r.rho, 1e-14), "density");
    double ek = 0;
    for (int d = 0; d < ndim; ++d) {
        REQUIRE(pbt::close(q.rhou[d], r.rhou[d], 1e-13), "momentum ", d, ": ", q.rhou[d], " expected ", r.rhou[d]);
        ek += p.rho * p.u[d] * p.u[d] / 2;
    }
    REQUIRE(pbt::close(q.E, r.E, 1e-9), "total energy ", q.E, " expected ", r.E);
    REQUIRE(pbt::close(compute_ek(p), ek, 1e-12), "kinetic energy (primitive)");
    REQUIRE(pbt::close(compute_ek(r), ek, 1e-12), "kinetic energy (conservative)");
    REQUIRE(pbt::close(compute_evol(r), e.evol_from_pres(p.rho, p.P), 1e-9, r.E * 1e-3), "internal energy");
    EulerPrim const b = to_prim(q, eos);
    REQUIRE(pbt::close(b.rho, p.rho, 1e-14), "density after round trip");
    for (int d = 0; d < ndim; ++d) {
        REQUIRE(pbt::close(b.u[d], p.u[d], 1e-13), "velocity after round trip");
    }
    REQUIRE(pbt::close(b.P, p.P, 1e-9, sE * 1e-3), "pressure after round trip ", b.P, " expected ", p.P);
    for (int d = 0; d < ndim; ++d) {
        EulerFlux const f = ref_flux(p, e, d);
        require_flux(compute_flux(p, d, eos), f, 1e-9, p.rho * v, sE + p.P, (sE + p.P) * v, "flux of a primitive state");
        require_flux(compute_flux(r, d, eos), f, 1e-9, p.rho * v, sE + p.P, (sE + p.P) * v, "flux of a conservative state");
    }
}

PBT_TEST(arrays, 1)
{
    reset(c);
    MeshOpt o;
    o.max_n = 5;
    Mesh const m = random_mesh(c, o);
    auto const g = make_grid(m);
    RefEos const e = random_eos(c);
    EOS const eos(e.gamma, e.mu);
    int const gh = c.i(0, m.ng);
    auto const range = g->range.with_ghosts(gh);
    auto const n = g->Nx_local_wg;
    KV_double_3d const rho("rho", n[0], n[1], n[2]);
    KV_double_4d const u("u", n[0], n[1], n[2], ndim);
    KV_double_3d const P("P", n[0], n[1], n[2]);
    KV_double_4d const rhou("rhou", n[0], n[1], n[2], ndim);
    KV_double_3d const E("E", n[0], n[1], n[2]);
    double const mark = -12345.;
    fill_all(rhou, mark);
    fill_all(E, mark);
    fill3(rho, [&](int i, int j, int k) {
        EulerPrim const p = random_prim(c, e, 5);
        P(i, j, k) = p.P;
        for (int d = 0; d < ndim; ++d) {
            u(i, j, k, d) = p.u[d];
        }
        return p.rho;
    });
    c.note("%s ghosts=%d", show(m).c_str(), gh);
    c.nontrivial();
    hclpp::conv_prim_to_cons(range, eos, rho, u, P, rhou, E);
    auto inside = [&](int i, int j, int k) {
        std::array<int, 3> const q {i, j, k};
        for (int d = 0; d < ndim; ++d) {
            if (q[d] < m.ng - gh || q[d] >= n[d] - m.ng + gh) {
                return false;
            }
        }
        return true;
    };
    KV_double_4d const u2("u2", n[0], n[1], n[2], ndim);
    KV_double_3d const P2("P2", n[0], n[1], n[2]);
    fill_all(u2, mark);
    fill_all(P2, mark);
    fill3(rho, [&](int i, int j, int k) {
        if (!inside(i, j, k)) {
            REQUIRE(E(i, j, k) == mark, "conversion to conservative variables wrote outside of its range at ", i, " ", j, " ", k);
            return rho(i, j, k);
        }
        EulerPrim p {};
        p.rho = rho(i, j, k);
        p.P = P(i, j, k);
        for (int d = 0; d < ndim; ++d) {
            p.u[d] = u(i, j, k, d);
        }
        EulerCons const r = ref_cons(p, e);
        for (int d = 0; d < ndim; ++d) {
            REQUIRE(pbt::close(rhou(i, j, k, d), r.rhou[d], 1e-12), "momentum at ", i, " ", j, " ", k);
        }
        REQUIRE(pbt::close(E(i, j, k), r.E, 1e-9), "energy at ", i, " ", j, " ", k, ": ", E(i, j, k), " expected ", r.E);
        return rho(i, j, k);
    });
    hclpp::conv_cons_to_prim(range, eos, rho, rhou, E, u2, P2);
    fill3(rho, [&](int i, int j, int k) {
        if (!inside(i, j, k)) {
            REQUIRE(P2(i, j, k) == mark, "conversion to primitive variables wrote outside of its range at ", i, " ", j, " ", k);
            return rho(i, j, k);
        }
        for (int d = 0; d < ndim; ++d) {
            REQUIRE(pbt::close(u2(i, j, k, d), u(i, j, k, d), 1e-12), "velocity after round trip at ", i, " ", j, " ", k);
        }
        REQUIRE(pbt::close(P2(i, j, k), P(i, j, k), 1e-9, E(i, j, k) * 1e-2), "pressure after round trip at ", i, " ", j, " ", k, ": ", P2(i, j, k), " expected ", P(i, j, k));
        return rho(i, j, k);
    });
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
