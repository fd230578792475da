// Random runs of the generic problem of checks/setup_verif
#pragma once

#include <geom.hpp>

#include <run.hpp>

namespace hz {

inline constexpr bool run_spherical = hclpp::geom == hclpp::Geometry::Geom_spherical;

#if defined(VERIF_GRAVITY_Internal_mass)
inline constexpr bool internal_mass = true;
#else
inline constexpr bool internal_mass = false;
#endif

struct RunCase
{
    Ini ini;
    std::array<int, 3> nx {1, 1, 1};
    int ng = 2;
    int nfx = 0;
    double cfl = 0.4;
    double dt_est = 0; // rough size of a time step
    double t_ini = 0;
    bool periodic_all = true;
    bool uniform = true;
    bool user_boundary = false;
    double gamma = 5. / 3;
    double mu = 1;
    std::vector<int> priority; // faces, the one that wins first
};

struct RunOpt
{
    bool user_parts = true; // user boundaries, user mesh, user step
    bool gravity = true;
    bool self_gravity = true;
    bool boundary_gravity = !internal_mass; // user-defined boundaries that depend on the acceleration
    int max_parts = 3;
    int max_n1 = 20, max_n2 = 9, max_n3 = 6;
    bool shift = false;
    bool pressure_fix = true;
    bool t_ini = true;
    bool priority = false; // a random order of the boundary conditions
};

inline char const* bc_dirs(int d)
{
    return d == 0 ? "_X0" : d == 1 ? "_X1" : "_X2";
}

inline RunCase random_run(pbt::Case& c, RunOpt const& o = {})
{
    RunCase r;
    Ini& ini = r.ini;
    r.ng = c.i(2, 3);
    if (r.ng != 2 || c.b()) {
        ini.set("Grid", "Nghost", r.ng);
    }
    int const max_n = ndim == 1 ? o.max_n1 : ndim == 2 ? o.max_n2 : o.max_n3;
    for (int d = 0; d < 3; ++d) {
        r.nx[d] = d < ndim ? c.i(r.ng, std::max(max_n, r.ng * 2)) : 1;
        ini.set("Grid", "Nx" + std::to_string(d) + "_glob", r.nx[d]);
    }
    std::array<double, 3> lo {0, 0, 0};
    std::array<double, 3> hi {1, 1, 1};
    for (int d = 0; d < ndim; ++d) {
        double len = c.d(0.5, 3.);
        double mn = c.d(-1., 1.);
        if (run_spherical) {
            if (d == 0) {
                // ghosts at positive radii
                mn = len * c.d(1.7, 4.);
            } else if (d == 1) {
                len = c.d(0.2, 0.2 * r.nx[d] / r.ng);
                len = std::min(len, 1.);
                mn = c.d(0.5, 1.5);
            } else {
                len = c.d(0.3, 1.5);
                mn = c.d(0., 3.);
            }
        }
        lo[d] = mn;
        hi[d] = mn + len;
        ini.set("Grid", "x" + std::to_string(d) + "min", lo[d]);
        ini.set("Grid", "x" + std::to_string(d) + "max", hi[d]);
    }
    if (o.user_parts && c.chance(1, 4)) {
        ini.set("Grid", "type", "UserDefined");
        ini.set("Initialisation", "stretch", c.sym(0.4));
        r.uniform = false;
    }
    r.gamma = c.pick({5. / 3, 1.4, 4. / 3});
    ini.set("Perfect Gas", "gamma", r.gamma);
    r.mu = c.d(0.5, 2.);
    ini.set("Perfect Gas", "mu", r.mu);
    double rho0 = c.logd(0.3, 3.);
    double P0 = c.logd(0.3, 3.);
    double const cs = std::sqrt(r.gamma * P0 / rho0);
    if (internal_mass && o.self_gravity && c.b()) {
        // dense enough for its own weight to be felt
        double const heavy = c.logd(0.1, 1.) * cs * cs / (4 * 6.67e-11 * hi[0] * (hi[0] - lo[0]));
        P0 *= heavy / rho0;
        rho0 = heavy;
    }
    double const drho = c.d(0., 0.4);
    double const dP = c.d(0., 0.4);
    double const u0 = cs * c.sym(1.);
    double const du = cs * c.d(0., 0.4);
    ini.set("Initialisation", "rho0", rho0);
    ini.set("Initialisation", "P0", P0);
    ini.set("Initialisation", "drho", drho);
    ini.set("Initialisation", "dP", dP);
    ini.set("Initialisation", "u0", u0);
    ini.set("Initialisation", "du", du);
    if (c.b()) {
        ini.set("Initialisation", "step", "true");
    }
    for (int d = 0; d < ndim; ++d) {
        ini.set("Initialisation", "k" + std::to_string(d), c.i(1, 2));
        ini.set("Initialisation", "phase" + std::to_string(d), c.d(0., 6.));
    }
    // boundaries
    for (int d = 0; d < ndim; ++d) {
        int const kind = c.i(0, 3); // 0 periodic, 1 same on both faces, 2 one per face, 3 user
        std::vector<std::string> const names {"NullGradient", "Reflexive"};
        std::string const key = std::string("BC") + bc_dirs(d);
        if (kind == 0) {
            ini.set("Boundary Condition", key, "Periodic");
        } else {
            r.periodic_all = false;
            if (kind == 1) {
                ini.set("Boundary Condition", key, c.pick(names));
            } else if (kind == 2 || !o.user_parts) {
                ini.set("Boundary Condition", key + "_left", c.pick(names));
                ini.set("Boundary Condition", key + "_right", c.pick(names));
            } else {
                ini.set("Boundary Condition", key + "_left", c.pick(names));
                ini.set("Boundary Condition", key + "_right", "UserDefined");
                r.user_boundary = true;
            }
        }
    }
    if (o.priority && c.b()) {
        char const* const faces[] = {"X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"};
        std::string list;
        for (int const f : random_perm(c, 2 * ndim)) {
            r.priority.push_back(f);
            list += (list.empty() ? "" : " ") + std::string(faces[f]);
        }
        ini.set("Boundary Condition", "Priority", list);
    } else {
        for (int f = 0; f < 2 * ndim; ++f) {
            r.priority.push_back(f);
        }
    }
    ini.set("Hydro", "reconstruction", c.pick(std::vector<std::string> {"Constant", "Minmod", "VanLeer", "VanAlbada"}));
    ini.set("Hydro", "riemann_solver", c.pick(std::vector<std::string> {"HLL", "HLLC", "Low Mach"}));
    r.nfx = c.i(0, 3);
    ini.set("Passive Scalar", "nfx", r.nfx);
    if (o.gravity && c.b()) {
        // accelerations of the order of cs^2 / (10 lengths)
        double const g = 0.1 * cs * cs;
        for (int d = 0; d < ndim; ++d) {
            ini.set("Gravity", "gx" + std::to_string(d), c.sym(g));
        }
        ini.set("Gravity", "M", c.d(0., 1.) * 0.1 * cs * cs * lo[0] * lo[0] / 6.67e-11);
    } else {
        ini.set("Gravity", "M", 0);
    }
    if (r.user_boundary && o.boundary_gravity && c.b()) {
        ini.set("Initialisation", "bc_gravity", c.logd(0.3, 3.) * 10 / (cs * cs));
    }
    if (o.user_parts && c.chance(1, 4)) {
        ini.set("User step", "user_step", "UserDefined");
    }
    if (o.pressure_fix && c.chance(1, 4)) {
        ini.set("Pressure fix", "pressure_fix", "On");
        ini.set("Pressure fix", "eps_pf", c.logd(1e-3, 10.));
    }
    if (o.shift && c.chance(1, 3)) {
        ini.set("Grid", "shift_grid", "UserDefined");
        ini.set("Initialisation", "vmax_shift", c.pick({-1e300, u0 + (0.5 * du)}));
        if (c.b()) {
            ini.set("Problem", "rmax_shift", hi[0] + (c.d(0.5, 3.) * (hi[0] - lo[0])));
        }
    }
    r.cfl = c.d(0.2, 0.45);
    ini.set("Run", "cfl", r.cfl);
    double inv = 0;
    double const v = std::abs(u0) + du + (cs * 1.5);
    for (int d = 0; d < ndim; ++d) {
        double dx = (hi[d] - lo[d]) / r.nx[d];
        if (run_spherical && d >= 1) {
            dx *= lo[0];
        }
        inv += v / dx;
    }
    r.dt_est = r.cfl / inv;
    if (o.t_ini && c.chance(1, 3)) {
        r.t_ini = c.d(-1., 2.) * r.dt_est * 5;
        ini.set("Run", "t_ini", r.t_ini);
    }
    return r;
}

// a process grid with at least ng cells per process in every direction
inline Machine random_machine(pbt::Case& c, RunCase const& r, int max_ranks = 4, int max_parts = 3)
{
    Machine m;
    m.n = 1;
    for (int d = 0; d < ndim; ++d) {
        if (internal_mass && d == 0) {
            m.dims[d] = 1;
            continue;
        }
        int const cap = std::max(1, std::min({max_parts, r.nx[d] / r.ng, max_ranks / m.n}));
        m.dims[d] = c.i(1, cap);
        m.n *= m.dims[d];
    }
    for (int d = ndim; d < 3; ++d) {
        m.dims[d] = c.b() ? 1 : 0;
    }
    if (m.n > 1) {
        m.schedule = c.below(1000);
        if (c.b()) {
            m.perm = random_perm(c, m.n);
        }
    }
    return m;
}
// a machine with at least two ranks when the mesh allows it
inline Machine random_parallel(pbt::Case& c, RunCase const& r, int max_ranks = 4)
{
    for (int k = 0; k < 4; ++k) {
        Machine m = random_machine(c, r, max_ranks);
        if (m.n > 1) {
            return m;
        }
    }
    return random_machine(c, r, max_ranks);
}

} // namespace hz
