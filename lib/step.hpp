// One hydrodynamic step: the code's components composed as in the main loop, and an independent serial reference.
#pragma once

#include <array_conversion.hpp>
#include <extrapolation_reconstruction.hpp>
#include <face_reconstruction.hpp>
#include <godunov_scheme.hpp>
#include <hydro_reconstruction.hpp>
#include <pressure_fix.hpp>
#include <states.hpp>
#include <time_step.hpp>
#include <world.hpp>

namespace hz {

inline char const* const solver_names[] = {"HLL", "HLLC", "Low Mach"};
inline char const* const limiter_names[] = {"Constant", "VanLeer", "Minmod", "VanAlbada"};
inline constexpr int nsolvers = 3;
inline constexpr int nlimiters = 4;

// an arbitrary acceleration field
struct FieldGravity
{
    KV_double_4d g;
    double operator()(int i, int j, int k, int dir) const noexcept { return g.extent(0) == 0 ? 0. : g(i, j, k, dir); }
};

struct Problem
{
    Mesh m;
    RefEos e {5. / 3, 1.};
    int nfx = 0;
    int solver = 0;
    int limiter = 0;
    double dt = 0;
    std::array<std::array<Bc, 2>, 3> bc {};
    World w; // conserved state, ghosts included; the scalars are mass fractions
    std::vector<Global> g; // acceleration, empty: none
    bool fix = false;
    double eps = 1e-3;
};

// ------------------------------------------------------------------------------------------------ reference
namespace ref {

struct Prim
{
    double rho;
    std::array<double, 3> u;
    double P;
};
struct Cons
{
    double rho;
    std::array<double, 3> m;
    double E;
};
inline double ekin(Cons const& q)
{
    double s = 0;
    for (double const x : q.m) {
        s += x * x;
    }
    return s / (2 * q.rho);
}
inline Cons to_cons(Prim const& p, RefEos const& e)
{
    Cons q {p.rho, {}, e.evol_from_pres(p.rho, p.P)};
    for (int d = 0; d < 3; ++d) {
        q.m[d] = p.rho * p.u[d];
        q.E += p.rho * p.u[d] * p.u[d] / 2;
    }
    return q;
}
inline Prim to_prim(Cons const& q, RefEos const& e)
{
    Prim p {q.rho, {}, e.pres_from_evol(q.rho, q.E - ekin(q))};
    for (int d = 0; d < 3; ++d) {
        p.u[d] = q.m[d] / q.rho;
    }
    return p;
}
inline Cons flux(Prim const& p, int dir, RefEos const& e)
{
    Cons const q = to_cons(p, e);
    Cons f {p.u[dir] * q.rho, {}, p.u[dir] * (q.E + p.P)};
    for (int d = 0; d < 3; ++d) {
        f.m[d] = p.u[dir] * q.m[d];
    }
    f.m[dir] += p.P;
    return f;
}
inline Cons lin(double a, Cons const& x, double b, Cons const& y)
{
    Cons r {(a * x.rho) + (b * y.rho), {}, (a * x.E) + (b * y.E)};
    for (int d = 0; d < 3; ++d) {
        r.m[d] = (a * x.m[d]) + (b * y.m[d]);
    }
    return r;
}
inline Cons riemann(int s, Cons const& UL, Cons const& UR, int d, RefEos const& e)
{
    Prim const l = to_prim(UL, e);
    Prim const r = to_prim(UR, e);
    double const cl = e.sound(l.rho, l.P);
    double const cr = e.sound(r.rho, r.P);
    Cons const FL = flux(l, d, e);
    Cons const FR = flux(r, d, e);
    if (s == 2) {
        double const a = 1.1 * std::max(l.rho * cl, r.rho * cr);
        double const us = ((l.u[d] + r.u[d]) / 2) - ((r.P - l.P) / (2 * a));
        double const theta = std::min(1., std::abs(us) / std::min(cl, cr));
        double const ps = ((l.P + r.P) / 2) - (theta * a * (r.u[d] - l.u[d]) / 2);
        Cons f = lin(us, us > 0 ? UL : UR, 0, UL);
        f.m[d] += ps;
        f.E += ps * us;
        return f;
    }
    double const sl = std::min(l.u[d] - cl, r.u[d] - cr);
    double const sr = std::max(l.u[d] + cl, r.u[d] + cr);
    if (sl >= 0) {
        return FL;
    }
    if (sr <= 0) {
        return FR;
    }
    if (s == 0) {
        return lin(1, lin(sr / (sr - sl), FL, -sl / (sr - sl), FR), 1, lin(sl * sr / (sr - sl), UR, -sl * sr / (sr - sl), UL));
    }
    double const al = l.rho * (sl - l.u[d]);
    double const ar = r.rho * (sr - r.u[d]);
    double const sm = (r.P - l.P + (l.u[d] * al) - (r.u[d] * ar)) / (al - ar);
    double const ps = l.P + (al * (sm - l.u[d]));
    bool const left = sm > 0;
    Prim const& p = left ? l : r;
    Cons const& U = left ? UL : UR;
    Cons const& F = left ? FL : FR;
    double const S = left ? sl : sr;
    double const rs = p.rho * (S - p.u[d]) / (S - sm);
    Cons Us {rs, {}, (((S - p.u[d]) * U.E) - (p.P * p.u[d]) + (ps * sm)) / (S - sm)};
    for (int k = 0; k < 3; ++k) {
        Us.m[k] = rs * (k == d ? sm : p.u[k]);
    }
    return lin(1, F, 1, lin(S, Us, -S, U));
}
inline double limit(int l, double r, double s)
{
    if (l == 0 || !(r * s > 0)) {
        return 0;
    }
    if (l == 1) {
        return 2 * r * s / (r + s);
    }
    if (l == 2) {
        return std::abs(r) < std::abs(s) ? r : s;
    }
    return r * s * (r + s) / ((r * r) + (s * s));
}

// geometric source terms of the momentum of one cell, for the states pl, pr of its faces in direction d
inline std::array<double, 3> curvature(Mesh const& m, int nd, int d, std::array<int, 3> const& c, Prim const& pl, Prim const& pr)
{
    std::array<double, 3> s {0, 0, 0};
    if (!spherical) {
        return s;
    }
    double const v = cell_volume(m, c[0], c[1], c[2]);
    std::array<int, 3> n = c;
    ++n[d];
    double const A = face_area(m, d, c[0], c[1], c[2]);
    double const B = face_area(m, d, n[0], n[1], n[2]);
    if (d == 2) {
        return s;
    }
    s[d] += (pl.P + pr.P) / 2 * (B - A) / v;
    if (d == 0) {
        double const x = m.x[0][c[0]];
        double const y = m.x[0][c[0] + 1];
        for (int t = 1; t < nd; ++t) {
            s[0] += ((pl.rho * pl.u[t] * pl.u[t]) + (pr.rho * pr.u[t] * pr.u[t])) / 4 * (B - A) / v;
            s[t] -= (y - x) / (y + x) * ((pr.rho * pr.u[t] * pr.u[0] * B) + (pl.rho * pl.u[t] * pl.u[0] * A)) / v;
        }
    }
    if (d == 1 && nd == 3) {
        double const x = m.x[1][c[1]];
        double const y = m.x[1][c[1] + 1];
        s[1] += ((pl.rho * pl.u[2] * pl.u[2]) + (pr.rho * pr.u[2] * pr.u[2])) / 2 * (B - A) / v;
        s[2] -= (std::sin(y) - std::sin(x)) / (std::sin(y) + std::sin(x)) * ((pr.rho * pr.u[2] * pr.u[1] * B) + (pl.rho * pl.u[2] * pl.u[1] * A)) / v;
    }
    return s;
}

struct Face
{
    Cons q;
    std::vector<double> f;
};
struct CellFaces
{
    bool set = false;
    std::array<std::array<Face, 2>, 3> s; // [direction][side]
};
struct Step
{
    World w; // new state in the interior, the old one elsewhere
    bool valid = true; // every intermediate state is physical
    std::vector<CellFaces> faces;
    World total_flux; // unused fields; boundary fluxes are derived from faces
};

inline Cons get(World const& w, std::array<int, 3> const& c)
{
    Cons q {w.rho(c[0], c[1], c[2]), {0, 0, 0}, w.E(c[0], c[1], c[2])};
    for (int d = 0; d < ndim; ++d) {
        q.m[d] = w.rhou[d](c[0], c[1], c[2]);
    }
    return q;
}
inline bool inside(Mesh const& m, std::array<int, 3> const& c, int grow = 0)
{
    for (int d = 0; d < 3; ++d) {
        int const g = m.ngh[d] == 0 ? 0 : grow;
        if (c[d] < m.ngh[d] - g || c[d] >= m.ngh[d] + m.nx[d] + g) {
            return false;
        }
    }
    return true;
}

class Reference
{
public:
    Problem const& p;
    int nd; // number of directions that take part
    std::vector<CellFaces> faces;
    bool valid = true;

    explicit Reference(Problem const& q, int nd_ = ndim) : p(q), nd(nd_) {}
    std::size_t at(std::array<int, 3> const& c) const { return c[0] + (static_cast<std::size_t>(p.w.rho.n[0]) * (c[1] + (static_cast<std::size_t>(p.w.rho.n[1]) * c[2]))); }
    double grav(int d, std::array<int, 3> const& c) const { return p.g.empty() ? 0. : p.g[d](c[0], c[1], c[2]); }
    static std::array<int, 3> add(std::array<int, 3> c, int d, int n)
    {
        c[d] += n;
        return c;
    }
    Prim prim(std::array<int, 3> const& c)
    {
        Cons const q = get(p.w, c);
        check(q);
        return to_prim(q, p.e);
    }
    void check(Cons const& q)
    {
        if (!(q.rho > 0) || !(q.E - ekin(q) > 0)) {
            valid = false;
        }
    }
    double center(int d, int i) const { return (p.m.x[d][i] + p.m.x[d][i + 1]) / 2; }
    double slope(int d, int i, double vm, double v0, double vp) const
    {
        return limit(p.limiter, (vp - v0) / (center(d, i + 1) - center(d, i)), (v0 - vm) / (center(d, i) - center(d, i - 1)));
    }

    // reconstructed and half a step evolved face states of a cell
    CellFaces const& predict(std::array<int, 3> const& c)
    {
        CellFaces& F = faces[at(c)];
        if (F.set) {
            return F;
        }
        F.set = true;
        double const h = p.dt / 2;
        double const v = cell_volume(p.m, c[0], c[1], c[2]);
        Prim const p0 = prim(c);
        std::array<std::array<Prim, 2>, 3> f {};
        std::array<std::array<std::vector<double>, 2>, 3> fx;
        for (int d = 0; d < nd; ++d) {
            Prim const pm = prim(add(c, d, -1));
            Prim const pp = prim(add(c, d, 1));
            double const half = (p.m.x[d][c[d] + 1] - p.m.x[d][c[d]]) / 2;
            for (int s = 0; s < 2; ++s) {
                double const t = s == 0 ? -half : half;
                f[d][s].rho = p0.rho + (t * slope(d, c[d], pm.rho, p0.rho, pp.rho));
                f[d][s].P = p0.P + (t * slope(d, c[d], pm.P, p0.P, pp.P));
                for (int k = 0; k < 3; ++k) {
                    f[d][s].u[k] = p0.u[k] + (t * slope(d, c[d], pm.u[k], p0.u[k], pp.u[k]));
                }
                for (auto const& q : p.w.fx) {
                    auto const a = add(c, d, -1);
                    auto const b = add(c, d, 1);
                    double const x = q(c[0], c[1], c[2]);
                    fx[d][s].push_back(x + (t * slope(d, c[d], q(a[0], a[1], a[2]), x, q(b[0], b[1], b[2]))));
                }
            }
        }
        // evolution by the fluxes of the reconstructed states and the source terms
        Cons rate {0, {0, 0, 0}, 0};
        std::vector<double> rfx(p.w.fx.size(), 0.);
        for (int d = 0; d < nd; ++d) {
            auto const n = add(c, d, 1);
            double const A = face_area(p.m, d, c[0], c[1], c[2]) / v;
            double const B = face_area(p.m, d, n[0], n[1], n[2]) / v;
            Cons const fl = flux(f[d][0], d, p.e);
            Cons const fr = flux(f[d][1], d, p.e);
            rate = lin(1, rate, 1, lin(A, fl, -B, fr));
            auto const src = curvature(p.m, nd, d, c, f[d][0], f[d][1]);
            for (int k = 0; k < 3; ++k) {
                rate.m[k] += src[k];
            }
            for (std::size_t k = 0; k < rfx.size(); ++k) {
                rfx[k] += (fl.rho * fx[d][0][k] * A) - (fr.rho * fx[d][1][k] * B);
            }
        }
        for (int d = 0; d < nd; ++d) {
            for (int s = 0; s < 2; ++s) {
                Cons const q = to_cons(f[d][s], p.e);
                Cons n = lin(1, q, h, rate);
                for (int k = 0; k < nd; ++k) {
                    n.m[k] += h * grav(k, c) * q.rho;
                    n.E += h * grav(k, c) * q.m[k];
                }
                check(n);
                F.s[d][s].q = n;
                for (std::size_t k = 0; k < rfx.size(); ++k) {
                    F.s[d][s].f.push_back(((q.rho * fx[d][s][k]) + (h * rfx[k])) / n.rho);
                }
            }
        }
        return F;
    }

    struct Through
    {
        Cons f;
        std::vector<double> fx;
    };
    // flux through the lower face d of cell c
    Through through(int d, std::array<int, 3> const& c)
    {
        Face const L = predict(add(c, d, -1)).s[d][1];
        Face const R = predict(c).s[d][0];
        Through t;
        t.f = riemann(p.solver, L.q, R.q, d, p.e);
        for (std::size_t k = 0; k < L.f.size(); ++k) {
            t.fx.push_back(t.f.rho * (t.f.rho < 0 ? R.f[k] : L.f[k]));
        }
        return t;
    }

    World run()
    {
        faces.assign(p.w.rho.v.size(), CellFaces());
        World out = p.w;
        for_each(p.w.rho, [&](int i, int j, int k) {
            std::array<int, 3> const c {i, j, k};
            if (!inside(p.m, c) || !valid) {
                return;
            }
            Cons const q = get(p.w, c);
            double const v = cell_volume(p.m, i, j, k);
            Cons n = q;
            std::vector<double> fx;
            for (auto const& x : p.w.fx) {
                fx.push_back(x(i, j, k) * q.rho);
            }
            for (int d = 0; d < nd; ++d) {
                auto const c1 = add(c, d, 1);
                double const A = p.dt * face_area(p.m, d, i, j, k) / v;
                double const B = p.dt * face_area(p.m, d, c1[0], c1[1], c1[2]) / v;
                Through const l = through(d, c);
                Through const r = through(d, c1);
                n = lin(1, n, 1, lin(A, l.f, -B, r.f));
                CellFaces const& F = predict(c);
                auto const src = curvature(p.m, nd, d, c, to_prim(F.s[d][0].q, p.e), to_prim(F.s[d][1].q, p.e));
                for (int t = 0; t < 3; ++t) {
                    n.m[t] += p.dt * src[t];
                }
                n.m[d] += p.dt * grav(d, c) * q.rho;
                n.E += p.dt * grav(d, c) * q.m[d];
                for (std::size_t t = 0; t < fx.size(); ++t) {
                    fx[t] += (A * l.fx[t]) - (B * r.fx[t]);
                }
            }
            if (p.fix) {
                n.E = safeguard(c, q, n);
            }
            out.rho(i, j, k) = n.rho;
            out.E(i, j, k) = n.E;
            for (int d = 0; d < ndim; ++d) {
                out.rhou[d](i, j, k) = n.m[d];
            }
            for (std::size_t t = 0; t < fx.size(); ++t) {
                out.fx[t](i, j, k) = std::clamp(fx[t] / n.rho, 0., 1.);
            }
        });
        return out;
    }

    // the energy of a cell evolved with the equation of the internal energy where it is too small
    double safeguard(std::array<int, 3> const& c, Cons const& q, Cons const& n)
    {
        double const ek = ekin(q);
        double const ei = q.E - ek;
        double const eps = p.eps;
        if (!(ei < eps * ek)) {
            return n.E;
        }
        double const P = to_prim(q, p.e).P;
        double const v = cell_volume(p.m, c[0], c[1], c[2]);
        double alpha = ei / (eps * ek);
        alpha *= alpha;
        if (ei < eps / 10 * ek) {
            alpha = 0;
        }
        double de = 0;
        for (int d = 0; d < nd; ++d) {
            for (int s = 0; s < 2; ++s) {
                auto const face = add(c, d, s);
                double const A = face_area(p.m, d, face[0], face[1], face[2]);
                Cons const L = predict(add(face, d, -1)).s[d][1].q;
                Cons const R = predict(face).s[d][0].q;
                double const us = ((L.m[d] / L.rho) + (R.m[d] / R.rho)) / 2;
                // the flow carries the internal energy of the cell it leaves
                bool const own = s == 0 ? us < 0 : us > 0;
                Cons const nb = get(p.w, add(c, d, s == 0 ? -1 : 1));
                double const carried = own ? ei : nb.E - ekin(nb);
                double const sg = s == 0 ? 1 : -1;
                de += sg * p.dt * us * (P + carried) * A / v;
            }
        }
        double const de_cons = n.E - ekin(n) - ei;
        return ei + (alpha * de_cons) + ((1 - alpha) * de) + ekin(n);
    }
};

} // namespace ref

// ------------------------------------------------------------------------------------------------ code under test
struct Stepper
{
    Grid const& grid;
    Problem const& p;
    EOS eos;
    KV_double_5d rho_rec, E_rec, P_rec;
    KV_double_6d rhou_rec, fx_rec, u_rec;
    std::unique_ptr<hclpp::IHydroReconstruction<FieldGravity>> rec;
    std::unique_ptr<hclpp::IGodunovScheme<FieldGravity>> god;
    KV_double_4d u;
    KV_double_3d P;
    FieldGravity g;

    Stepper(Grid const& gr, Problem const& q) : grid(gr), p(q), eos(q.e.gamma, q.e.mu)
    {
        auto const& n = gr.Nx_local_wg;
        rho_rec = KV_double_5d("rho_rec", n[0], n[1], n[2], 2, ndim);
        E_rec = KV_double_5d("E_rec", n[0], n[1], n[2], 2, ndim);
        P_rec = KV_double_5d("P_rec", n[0], n[1], n[2], 2, ndim);
        rhou_rec = KV_double_6d("rhou_rec", n[0], n[1], n[2], 2, ndim, ndim);
        u_rec = KV_double_6d("u_rec", n[0], n[1], n[2], 2, ndim, ndim);
        fx_rec = KV_double_6d("fx_rec", n[0], n[1], n[2], 2, ndim, q.nfx);
        u = KV_double_4d("u", n[0], n[1], n[2], ndim);
        P = KV_double_3d("P", n[0], n[1], n[2]);
        if (!q.g.empty()) {
            g.g = KV_double_4d("g", n[0], n[1], n[2], ndim);
            auto const lo = gr.range.Corner_min;
            fill4(g.g, [&](int i, int j, int k, int d) { return q.g[d](lo[0] + i, lo[1] + j, lo[2] + k); });
        }
        rec = std::make_unique<hclpp::MUSCLHancockHydroReconstruction<EOS, FieldGravity>>(
                hclpp::factory_face_reconstruction(limiter_names[q.limiter]),
                std::make_unique<hclpp::HancockExtrapolationReconstruction<EOS, FieldGravity>>(eos),
                eos,
                P_rec,
                u_rec);
        god = hclpp::factory_godunov_scheme<EOS, FieldGravity>(solver_names[q.solver], eos);
    }
    // a holds a state whose ghosts are filled; b receives the new interior
    void operator()(Local const& a, Local const& b, double dt)
    {
        hclpp::conv_cons_to_prim(grid.range.all_ghosts(), eos, a.rho, a.rhou, a.E, u, P);
        rec->execute(grid.range.with_ghosts(1), grid, g, dt / 2, a.rho, u, P, a.fx, rho_rec, rhou_rec, E_rec, fx_rec);
        god->execute(grid.range.no_ghosts(), grid, g, dt, a.rho, a.rhou, a.E, a.fx, rho_rec, rhou_rec, E_rec, fx_rec, b.rho, b.rhou, b.E, b.fx);
        if (p.fix) {
            hclpp::pressure_fix(grid.range.no_ghosts(), eos, grid, dt, p.eps, a.rho, a.rhou, a.E, rho_rec, rhou_rec, E_rec, b.rho, b.rhou, b.E);
        }
    }
};

inline void load(Grid const& g, World& w, Local const& l)
{
    auto const all = w.all();
    auto const lo = g.range.Corner_min;
    l.each([&](int i, int j, int k) {
        for (int f = 0; f < l.nf(); ++f) {
            l.at(f, i, j, k) = (*all[f])(lo[0] + i, lo[1] + j, lo[2] + k);
        }
    });
}
inline void store(Grid const& g, World& w, Local const& l)
{
    auto const all = w.all();
    auto const lo = g.range.Corner_min;
    l.each([&](int i, int j, int k) {
        if (interior(g, i, j, k)) {
            for (int f = 0; f < l.nf(); ++f) {
                (*all[f])(lo[0] + i, lo[1] + j, lo[2] + k) = l.at(f, i, j, k);
            }
        }
    });
}

// the state after the step(s); ghosts are the old ones when steps == 1, else filled by the code's boundary conditions
inline World run_steps(Problem const& p, int steps = 1, std::array<int, 3> dims = {1, 1, 1}, pbt::u64 seed = 0)
{
    World out = p.w;
    auto const body = [&](int) {
        Grid grid(p.m.nx, dims, p.m.ng);
        set_grid(grid, p.m);
        Local a(grid, p.nfx);
        Local b(grid, p.nfx);
        World in = p.w;
        load(grid, in, a);
        load(grid, in, b);
        Stepper s(grid, p);
        std::unique_ptr<hclpp::DistributedBoundaryCondition> bcs;
        std::array<std::unique_ptr<hclpp::IBoundaryCondition<FieldGravity>>, hclpp::nfaces> faces;
        if (steps > 1) {
            hclpp::Param param = make_param("");
            param.nfx = p.nfx;
            bcs = std::make_unique<hclpp::DistributedBoundaryCondition>(grid, param);
            for (int f = 0; f < hclpp::nfaces; ++f) {
                faces[f] = hclpp::factory_boundary_construction<FieldGravity>(bc_name(p.bc[f / 2][f % 2]), f / 2, f % 2);
            }
        }
        for (int n = 0; n < steps; ++n) {
            s(a, b, p.dt);
            if (n + 1 < steps) {
                (*bcs)(faces, grid, s.g, b.rho, b.rhou, b.E, b.fx);
                std::swap(a, b);
            }
        }
        store(grid, out, b);
    };
    int const n = dims[0] * dims[1] * dims[2];
    if (n == 1) {
        body(0);
    } else {
        ranks(n, body, seed);
    }
    return out;
}

// ------------------------------------------------------------------------------------------------ random problems
struct ProblemOpt
{
    int max_n = ndim == 1 ? 16 : ndim == 2 ? 7 : 4;
    int min_n = 2;
    std::array<int, 3> parts {1, 1, 1};
    int max_fx = 2;
    bool gravity = false;
    bool fix = false;
    bool uniform_mesh = false;
    double max_mach = 2.5;
    bool periodic = false; // all the boundaries
    bool velocities = true;
    double amp = 0; // > 0: fixed amplitude of the fluctuations
    bool walls = false; // every boundary reflects
    double max_cfl = 0.5;
};
inline double hash01(pbt::u64 salt, pbt::u64 a, pbt::u64 b)
{
    return static_cast<double>(pbt::mix(pbt::mix(salt + (a * 0x9e37ULL)) ^ (b + 0x51ULL)) >> 12) / 4503599627370496.;
}

// the largest stable time step of the state in the whole of w, ghosts included
inline double stability_limit(Problem const& p, int grow = 100)
{
    double inv = 0;
    for_each(p.w.rho, [&](int i, int j, int k) {
        if (!ref::inside(p.m, {i, j, k}, grow)) {
            return;
        }
        ref::Prim const q = ref::to_prim(ref::get(p.w, {i, j, k}), p.e);
        double const c = p.e.sound(q.rho, q.P);
        double s = 0;
        for (int d = 0; d < ndim; ++d) {
            std::array<int, 3> const x {i, j, k};
            double w = p.m.x[d][x[d] + 1] - p.m.x[d][x[d]];
            if (spherical && d >= 1) {
                w *= std::abs(p.m.x[0][i] + p.m.x[0][i + 1]) / 2;
            }
            if (spherical && d == 2) {
                w *= std::sin((p.m.x[1][j] + p.m.x[1][j + 1]) / 2);
            }
            s += (std::abs(q.u[d]) + c) / w;
        }
        inv = std::max(inv, s);
    });
    return 1 / inv;
}
inline void set_cell(World& w, int i, int j, int k, ref::Prim const& q, RefEos const& e)
{
    ref::Cons const u = ref::to_cons(q, e);
    w.rho(i, j, k) = u.rho;
    w.E(i, j, k) = u.E;
    for (int d = 0; d < ndim; ++d) {
        w.rhou[d](i, j, k) = u.m[d];
    }
}
inline char const* const field_kinds[] = {"noise", "waves", "jumps"};

// a periodic mesh: the ghosts have the widths of the cells they stand for
inline void wrap_mesh(Mesh& m)
{
    for (int d = 0; d < ndim; ++d) {
        auto& x = m.x[d];
        double const len = x[m.ng + m.nx[d]] - x[m.ng];
        for (int k = 0; k < m.ng; ++k) {
            x[k] = x[k + m.nx[d]] - len;
            x[m.ng + m.nx[d] + 1 + k] = x[m.ng + 1 + k] + len;
        }
    }
}
// fills interior and ghosts (by the boundary rules) with a random field around a random state
inline void random_fields(pbt::Case& c, Problem& p, ProblemOpt const& o)
{
    p.w = World(p.m, p.nfx);
    EulerPrim const base = random_prim(c, p.e, o.velocities ? o.max_mach : 0.);
    double const amp = o.amp > 0 ? o.amp : c.pick({0.05, 0.3, 0.8});
    int const kind = c.i(0, 2);
    pbt::u64 const salt = c.below(1000000);
    double const cs = p.e.sound(base.rho, base.P);
    double const vel = o.velocities ? 1. : 0.;
    c.note("%s amp=%g salt=%llu base(%s)", field_kinds[kind], amp, static_cast<unsigned long long>(salt), show(base).c_str());
    auto const h = [&](int f, int i, int j, int k) {
        pbt::u64 const id = (static_cast<pbt::u64>(i) * 4096) + (static_cast<pbt::u64>(j) * 64) + k;
        if (kind == 0) {
            return (2 * hash01(salt, f, id)) - 1;
        }
        double s = 0;
        std::array<int, 3> const x {i, j, k};
        for (int d = 0; d < ndim; ++d) {
            double const ph = 6.3 * hash01(salt, f, d);
            if (kind == 1) {
                s += std::sin(ph + (6.283 * (x[d] - p.m.ngh[d]) * (1 + static_cast<int>(3 * hash01(salt, f, 10 + d))) / p.m.nx[d]));
            } else {
                s += hash01(salt, f, (1000 * (d + 1)) + (x[d] / 3)) > 0.5 ? 1 : -1;
            }
        }
        return s / ndim;
    };
    for_each(p.w.rho, [&](int i, int j, int k) {
        ref::Prim q {base.rho * std::exp(amp * h(0, i, j, k)), {0, 0, 0}, base.P * std::exp(amp * h(1, i, j, k))};
        for (int d = 0; d < ndim; ++d) {
            q.u[d] = vel * (base.u[d] + (amp * cs * h(2 + d, i, j, k)));
        }
        set_cell(p.w, i, j, k, q, p.e);
        for (int f = 0; f < p.nfx; ++f) {
            double const x = h(10 + f, i, j, k);
            p.w.fx[f](i, j, k) = std::clamp(0.5 + (0.6 * x), 0., 1.);
        }
    });
    fill_ghosts(p.w, p.m, p.bc);
}
inline Problem random_problem(pbt::Case& c, ProblemOpt const& o)
{
    Problem p;
    MeshOpt mo;
    mo.max_n = o.max_n;
    mo.min_n = o.min_n;
    mo.parts = o.parts;
    mo.uniform = o.uniform_mesh;
    mo.fill = true;
    mo.ng_max = ndim == 3 ? 2 : 3;
    p.m = random_mesh(c, mo);
    bool const origin = spherical && ndim == 1 && c.chance(1, 5);
    if (origin) { // a sphere: the inner face is the origin and the ghosts mirror the interior
        double const dx = c.logd(0.05, 5.);
        for (std::size_t k = 0; k < p.m.x[0].size(); ++k) {
            p.m.x[0][k] = dx * (static_cast<int>(k) - p.m.ng);
        }
    }
    // a sector of a sphere that touches the axis: the ghosts lie on the other side
    bool const axis = spherical && ndim >= 2 && !o.periodic && c.chance(1, 6);
    if (axis) {
        double const dx = c.d(0.05, std::min(0.5, 3. / (p.m.nx[1] + p.m.ng)));
        for (std::size_t k = 0; k < p.m.x[1].size(); ++k) {
            p.m.x[1][k] = dx * (static_cast<int>(k) - p.m.ng);
        }
    }
    p.e = random_eos(c);
    p.nfx = c.i(0, o.max_fx);
    p.solver = c.i(0, nsolvers - 1);
    p.limiter = c.i(0, nlimiters - 1);
    p.bc = random_bcs(c, 2);
    if (o.periodic) {
        for (auto& b : p.bc) {
            b = {Bc::Periodic, Bc::Periodic};
        }
    }
    if (o.walls) {
        for (auto& b : p.bc) {
            b = {Bc::Reflexive, Bc::Reflexive};
        }
    }
    if (origin) {
        p.bc[0] = {Bc::Reflexive, c.pick({Bc::Null, Bc::Reflexive})};
        c.label("origin");
    }
    if (axis) {
        p.bc[1] = {Bc::Reflexive, c.pick({Bc::Null, Bc::Reflexive})};
        c.label("axis");
    }
    for (int d = 0; d < ndim; ++d) {
        c.discard_if(p.m.nx[d] < p.m.ngh[d]);
    }
    if (o.periodic) {
        wrap_mesh(p.m);
    }
    random_fields(c, p, o);
    double const cfl = std::min(o.max_cfl, c.pick({0.3, 0.1, 0.5, 0.02}));
    p.dt = cfl * stability_limit(p);
    if (o.gravity && c.chance(3, 4)) {
        pbt::u64 const salt = c.below(100000);
        double const cs = p.e.sound(p.w.rho.v[0], ref::to_prim(ref::get(p.w, {0, 0, 0}), p.e).P);
        double const ag = cs / p.dt * c.pick({0.1, 0.001, 0.01});
        p.g.assign(ndim, Global(p.m));
        for (int d = 0; d < ndim; ++d) {
            for_each(p.g[d], [&](int i, int j, int k) { p.g[d](i, j, k) = ag * ((2 * hash01(salt, d, (i * 4096) + (j * 64) + k)) - 1); });
        }
    }
    c.note("%s %s gamma=%g %s %s nfx=%d cfl=%g gravity=%d", show(p.m).c_str(), show(p.bc).c_str(), p.e.gamma, solver_names[p.solver], limiter_names[p.limiter], p.nfx, cfl, !p.g.empty());
    c.label(solver_names[p.solver]);
    c.label(limiter_names[p.limiter]);
    return p;
}

// ------------------------------------------------------------------------------------------------ comparison
// magnitude of every field of a state: density, momentum, energy
struct Mag
{
    double rho = 0, mom = 0, E = 0;
    double of(int f) const { return f == 0 ? rho : f <= ndim ? mom : f == ndim + 1 ? E : 1.; }
};
inline Mag magnitude(Problem const& p)
{
    Mag s;
    for_each(p.w.rho, [&](int i, int j, int k) {
        ref::Cons const q = ref::get(p.w, {i, j, k});
        ref::Prim const w = ref::to_prim(q, p.e);
        double const c = p.e.sound(w.rho, w.P);
        double u = 0;
        for (double const x : w.u) {
            u += std::abs(x);
        }
        s.rho = std::max(s.rho, q.rho);
        s.mom = std::max(s.mom, q.rho * (u + c));
        s.E = std::max(s.E, q.rho * (u + c) * (u + c));
    });
    return s;
}
inline double step_tol()
{
    return perfect_gas ? 1e-9 : 1e-6;
}
inline void require_same(World& got, World& want, Mesh const& m, Mag const& s, double tol, std::string const& what)
{
    auto const a = got.all();
    auto const b = want.all();
    for_each(got.rho, [&](int i, int j, int k) {
        if (!ref::inside(m, {i, j, k})) {
            return;
        }
        for (std::size_t f = 0; f < a.size(); ++f) {
            double const x = (*a[f])(i, j, k);
            double const y = (*b[f])(i, j, k);
            REQUIRE(pbt::close(x, y, tol, s.of(static_cast<int>(f))), what, ": ", field_name(static_cast<int>(f)), "[", f, "] of cell (", i, ",", j, ",", k, ") is ", x, " expected ", y, " (difference ", x - y, ", scale ", s.of(static_cast<int>(f)), ")");
        }
    });
}

} // namespace hz
