// R01: the numerical flux of every Riemann solver, for every pair of valid states.
#include <pbt.hpp>

#include <riemann_solver.hpp>
#include <states.hpp>

using namespace hz;

namespace {

enum Solver { S_hll = 0, S_hllc = 1, S_split = 2 };
char const* const names[] = {"HLL", "HLLC", "Low Mach"};

EulerFlux call(int s, EulerPrim const& l, EulerPrim const& r, int d, EOS const& eos, RefEos const& e)
{
    EulerCons const L = ref_cons(l, e);
    EulerCons const R = ref_cons(r, e);
    if (s == S_hll) {
        return hclpp::HLL()(L, R, d, eos);
    }
    if (s == S_hllc) {
        return hclpp::HLLC()(L, R, d, eos);
    }
    return hclpp::Splitting()(L, R, d, eos);
}

using Vec = std::array<double, ndim + 2>;
Vec vec(EulerCons const& q)
{
    Vec v {};
    v[0] = q.rho;
    for (int d = 0; d < ndim; ++d) {
        v[1 + d] = q.rhou[d];
    }
    v[ndim + 1] = q.E;
    return v;
}
Vec vec(EulerFlux const& q)
{
    Vec v {};
    v[0] = q.rho;
    for (int d = 0; d < ndim; ++d) {
        v[1 + d] = q.rhou[d];
    }
    v[ndim + 1] = q.E;
    return v;
}
EulerFlux unvec(Vec const& v)
{
    EulerFlux f {};
    f.rho = v[0];
    for (int d = 0; d < ndim; ++d) {
        f.rhou[d] = v[1 + d];
    }
    f.E = v[ndim + 1];
    return f;
}

// Independent statement of the three solvers.
EulerFlux reference(int s, EulerPrim const& l, EulerPrim const& r, int d, RefEos const& e)
{
    double const cl = e.sound(l.rho, l.P);
    double const cr = e.sound(r.rho, r.P);
    Vec const UL = vec(ref_cons(l, e));
    Vec const UR = vec(ref_cons(r, e));
    Vec const FL = vec(ref_flux(l, e, d));
    Vec const FR = vec(ref_flux(r, e, d));
    double const sl = std::min(l.u[d] - cl, r.u[d] - cr);
    double const sr = std::max(l.u[d] + cl, r.u[d] + cr);
    if (s == S_split) {
        double const a = 1.1 * std::max(l.rho * cl, r.rho * cr);
        double const us = ((l.u[d] + r.u[d]) / 2) - ((r.P - l.P) / (2 * a));
        double const theta = std::min(1., std::abs(us) / std::min(cl, cr));
        double const ps = ((l.P + r.P) / 2) - (theta * a * (r.u[d] - l.u[d]) / 2);
        Vec f = us > 0 ? UL : UR;
        for (double& x : f) {
            x *= us;
        }
        f[1 + d] += ps;
        f[ndim + 1] += ps * us;
        return unvec(f);
    }
    if (sl >= 0) {
        return unvec(FL);
    }
    if (sr <= 0) {
        return unvec(FR);
    }
    if (s == S_hll) {
        Vec f {};
        for (int k = 0; k < ndim + 2; ++k) {
            f[k] = ((sr * FL[k]) - (sl * FR[k]) + (sl * sr * (UR[k] - UL[k]))) / (sr - sl);
        }
        return unvec(f);
    }
    // HLLC: two constant states separated by the contact moving at s_m, where Rankine-Hugoniot holds on both outer waves
    double const al = l.rho * (sl - l.u[d]);
    double const ar = r.rho * (sr - r.u[d]);
    double const sm = (r.P - l.P + (l.u[d] * al) - (r.u[d] * ar)) / (al - ar);
    double const ps = l.P + (al * (sm - l.u[d]));
    bool const left = sm > 0;
    EulerPrim const& p = left ? l : r;
    Vec const& U = left ? UL : UR;
    Vec const& F = left ? FL : FR;
    double const S = left ? sl : sr;
    double const rs = p.rho * (S - p.u[d]) / (S - sm);
    Vec Us {};
    Us[0] = rs;
    for (int k = 0; k < ndim; ++k) {
        Us[1 + k] = rs * (k == d ? sm : p.u[k]);
    }
    Us[ndim + 1] = (((S - p.u[d]) * U[ndim + 1]) - (p.P * p.u[d]) + (ps * sm)) / (S - sm);
    Vec f {};
    for (int k = 0; k < ndim + 2; ++k) {
        f[k] = F[k] + (S * (Us[k] - U[k]));
    }
    return unvec(f);
}

struct Scales
{
    double rho, mom, E;
};
Scales scales(EulerPrim const& l, EulerPrim const& r, RefEos const& e)
{
    Scales s {0, 0, 0};
    for (EulerPrim const* p : {&l, &r}) {
        double v = e.sound(p->rho, p->P);
        for (int d = 0; d < ndim; ++d) {
            v = std::max(v, std::abs(p->u[d]));
        }
        s.rho = std::max(s.rho, p->rho);
        s.mom = std::max(s.mom, v);
        s.E = std::max(s.E, p->P);
    }
    double const rho = s.rho;
    double const v = s.mom;
    double const P = s.E + (rho * v * v);
    return {rho * v, P, P * v * 3};
}

EulerPrim flip(EulerPrim p, int d)
{
    p.u[d] = -p.u[d];
    return p;
}

struct Input
{
    RefEos e;
    int s, d;
    EulerPrim l, r;
};
Input gen(pbt::Case& c)
{
    Input in {};
    in.e = random_eos(c);
    in.s = c.i(0, 2);
    in.d = c.i(0, ndim - 1);
    in.l = random_prim(c, in.e, 4);
    int const kind = c.i(0, 4);
    if (kind == 0) { // contact or shear
        in.r = in.l;
        in.r.rho = in.l.rho * c.logd(0.01, 100.);
        for (int d = 0; d < ndim; ++d) {
            if (d != in.d) {
                in.r.u[d] = c.sym(2.) * in.e.sound(in.l.rho, in.l.P);
            }
        }
        c.label("contact");
    } else if (kind == 1) { // weak jump
        in.r = in.l;
        in.r.rho *= 1 + c.sym(0.01);
        in.r.P *= 1 + c.sym(0.01);
        in.r.u[in.d] += c.sym(0.01) * in.e.sound(in.l.rho, in.l.P);
        c.label("weak");
    } else {
        in.r = near_prim(c, in.e, in.l, 4);
        c.label("strong");
    }
    c.note("%s dir=%d gamma=%.4g L[%s] R[%s]", names[in.s], in.d, in.e.gamma, show(in.l).c_str(), show(in.r).c_str());
    return in;
}

} // namespace

PBT_TEST(reference_flux, 3)
{
    Input const in = gen(c);
    EOS const eos(in.e.gamma, in.e.mu);
    Scales const s = scales(in.l, in.r, in.e);
    EulerFlux const f = call(in.s, in.l, in.r, in.d, eos, in.e);
    EulerFlux const g = reference(in.s, in.l, in.r, in.d, in.e);
    double const cl = in.e.sound(in.l.rho, in.l.P);
    double const cr = in.e.sound(in.r.rho, in.r.P);
    bool const sup = std::min(in.l.u[in.d] - cl, in.r.u[in.d] - cr) > 0 || std::max(in.l.u[in.d] + cl, in.r.u[in.d] + cr) < 0;
    c.label(std::string(names[in.s]) + (sup ? " supersonic" : " subsonic"));
    c.nontrivial();
    require_flux(f, g, 2e-10, s.rho, s.mom, s.E, names[in.s]);
}

PBT_TEST(consistency, 1)
{
    Input in = gen(c);
    EOS const eos(in.e.gamma, in.e.mu);
    Scales const s = scales(in.l, in.l, in.e);
    c.nontrivial();
    require_flux(call(in.s, in.l, in.l, in.d, eos, in.e), ref_flux(in.l, in.e, in.d), 2e-10, s.rho, s.mom, s.E, "consistency");
}

PBT_TEST(mirror, 1)
{
    Input const in = gen(c);
    EOS const eos(in.e.gamma, in.e.mu);
    Scales const s = scales(in.l, in.r, in.e);
    EulerFlux const f = call(in.s, in.l, in.r, in.d, eos, in.e);
    EulerFlux g = call(in.s, flip(in.r, in.d), flip(in.l, in.d), in.d, eos, in.e);
    g.rho = -g.rho;
    g.E = -g.E;
    for (int d = 0; d < ndim; ++d) {
        if (d != in.d) {
            g.rhou[d] = -g.rhou[d];
        }
    }
    c.nontrivial();
    // when the contact is (nearly) at rest the upwind side, hence the transverse momentum, is a matter of rounding:
    // it is then multiplied by a vanishing mass flux, so the comparison below remains valid
    require_flux(f, g, 2e-10, s.rho, s.mom, s.E, "mirror image");
}

PBT_TEST(direction, 1)
{
    Input const in = gen(c);
    EOS const eos(in.e.gamma, in.e.mu);
    int const d2 = c.i(0, ndim - 1);
    auto swp = [&](auto v) {
        std::swap(v[in.d], v[d2]);
        return v;
    };
    EulerPrim l = in.l;
    EulerPrim r = in.r;
    l.u = swp(l.u);
    r.u = swp(r.u);
    Scales const s = scales(in.l, in.r, in.e);
    EulerFlux const f = call(in.s, in.l, in.r, in.d, eos, in.e);
    EulerFlux g = call(in.s, l, r, d2, eos, in.e);
    g.rhou = swp(g.rhou);
    c.nontrivial(d2 != in.d);
    require_flux(f, g, 2e-10, s.rho, s.mom, s.E, "exchange of two directions");
}

PBT_TEST(upwind_and_contact, 1)
{
    RefEos const e = random_eos(c);
    EOS const eos(e.gamma, e.mu);
    int const d = c.i(0, ndim - 1);
    EulerPrim l = random_prim(c, e, 2);
    EulerPrim r = near_prim(c, e, l, 2);
    if (c.b()) {
        // supersonic on both sides
        int const s = c.i(0, 1);
        double const sgn = c.b() ? 1 : -1;
        l.u[d] = sgn * (e.sound(l.rho, l.P) * c.d(1.01, 5));
        r.u[d] = sgn * (e.sound(r.rho, r.P) * c.d(1.01, 5));
        c.note("%s supersonic L[%s] R[%s]", names[s], show(l).c_str(), show(r).c_str());
        Scales const sc = scales(l, r, e);
        c.nontrivial();
        require_flux(call(s, l, r, d, eos, e), ref_flux(sgn > 0 ? l : r, e, d), 2e-10, sc.rho, sc.mom, sc.E, "supersonic flux");
    } else {
        // stationary contact: no mass or energy through the face, the force is the pressure
        int const s = c.i(1, 2);
        l.u[d] = 0;
        r.u[d] = 0;
        r.P = l.P;
        c.note("%s contact L[%s] R[%s]", names[s], show(l).c_str(), show(r).c_str());
        Scales const sc = scales(l, r, e);
        EulerFlux z {};
        z.rhou[d] = l.P;
        c.nontrivial();
        require_flux(call(s, l, r, d, eos, e), z, 2e-10, sc.rho, sc.mom, sc.E, "stationary contact");
    }
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
