// O09: every iteration of a run is one step of the documented scheme, applied to the state the run was in.
// A run that saves every iteration is compared, transition by transition, with the serial reference of lib/step.hpp.
#include <masses.hpp>
#include <runs.hpp>
#include <step.hpp>

#include "setup_verif/setup.hpp"

using namespace hz;

namespace {

enum class Kind { Null, Reflexive, Periodic, User };

struct Model
{
    RunCase const& r;
    std::array<std::array<Kind, 2>, 3> bc {};
    hclpp::ParamSetup user;
    RefEos eos;
    bool user_step;
    bool shifting; // the criterion is active
    double rmax;
    double central;
    std::array<double, 3> uniform {};

    static Kind kind(std::string const& s)
    {
        return s == "NullGradient" ? Kind::Null : s == "Reflexive" ? Kind::Reflexive : s == "Periodic" ? Kind::Periodic : Kind::User;
    }
    static double num(Ini const& ini, char const* s, std::string const& k, double def)
    {
        std::string const t = ini.get(s, k);
        return t.empty() ? def : std::stod(t);
    }
    explicit Model(RunCase const& q)
        : r(q)
        , user(INIReader(write_text("model.ini", q.ini.text())))
        , eos {q.gamma, q.mu}
        , user_step(q.ini.get("User step", "user_step") == "UserDefined")
        , shifting(q.ini.get("Grid", "shift_grid") == "UserDefined")
        , rmax(num(q.ini, "Problem", "rmax_shift", 1e20))
        , central(num(q.ini, "Gravity", "M", 1))
    {
        for (int d = 0; d < ndim; ++d) {
            std::string const key = std::string("BC") + bc_dirs(d);
            for (int s = 0; s < 2; ++s) {
                std::string t = q.ini.get("Boundary Condition", key + (s == 0 ? "_left" : "_right"));
                if (t.empty()) {
                    t = q.ini.get("Boundary Condition", key);
                }
                bc[d][s] = kind(t);
            }
            uniform[d] = num(q.ini, "Gravity", "gx" + std::to_string(d), 0);
        }
    }
    double boundary_gravity([[maybe_unused]] Mesh const& m, [[maybe_unused]] int i, [[maybe_unused]] int d) const
    {
#if defined(VERIF_GRAVITY_Uniform)
        return uniform[d];
#elif defined(VERIF_GRAVITY_Point_mass)
        double const x = centre(m, i);
        return d == 0 ? -hclpp::units::G * central / x / x : 0;
#else
        return 0; // no such boundary with the gravity of the gas: it is the one of the step before
#endif
    }
    // one face: everything in its layers, whatever the other directions
    void face(World& w, Mesh const& m, int d, int s, Kind k) const
    {
        auto const f = w.all();
        World const old = w;
        World tmp = w;
        auto const src = tmp.all();
        for_each(w.rho, [&](int a, int b, int c) {
            std::array<int, 3> const p {a, b, c};
            bool const here = s == 0 ? p[d] < m.ng : p[d] >= m.ng + m.nx[d];
            if (!here) {
                return;
            }
            if (k == Kind::User) {
                ref::Prim q {user.rho0, {0, 0, 0}, user.boundary_pressure(boundary_gravity(m, a, d))};
                for (int t = 0; t < ndim; ++t) {
                    q.u[t] = user.u0;
                }
                set_cell(w, a, b, c, q, eos);
                for (auto& x : w.fx) {
                    x(a, b, c) = 0.25;
                }
                return;
            }
            Bc const rule = k == Kind::Null ? Bc::Null : k == Kind::Reflexive ? Bc::Reflexive : Bc::Periodic;
            Source const from = ghost_source(p[d], m.ng, m.nx[d], rule, rule);
            std::array<int, 3> q = p;
            q[d] = from.i;
            for (std::size_t t = 0; t < f.size(); ++t) {
                double const sg = static_cast<int>(t) == 1 + d ? from.sign : 1;
                (*f[t])(a, b, c) = sg * (*src[t])(q[0], q[1], q[2]);
            }
        });
    }
    void ghosts(World& w, Mesh const& m) const
    {
        for (int d = 0; d < ndim; ++d) {
            // periodic faces are exchanges, done before any physical boundary
            if (bc[d][0] == Kind::Periodic) {
                face(w, m, d, 0, Kind::Periodic);
                face(w, m, d, 1, Kind::Periodic);
            }
        }
        for (auto it = r.priority.rbegin(); it != r.priority.rend(); ++it) {
            Kind const k = bc[*it / 2][*it % 2];
            if (k != Kind::Periodic) {
                face(w, m, *it / 2, *it % 2, k);
            }
        }
    }
    void gravity(Problem& p) const
    {
        p.g.assign(ndim, Global(p.m));
#if defined(VERIF_GRAVITY_Uniform)
        for (int d = 0; d < ndim; ++d) {
            for (double& x : p.g[d].v) {
                x = uniform[d];
            }
        }
#else
#if defined(VERIF_GRAVITY_Point_mass)
        std::vector<long double> const mass(p.w.rho.n[0], central);
#else
        auto const mass = enclosed(p.m, p.w.rho, central);
#endif
        for_each(p.g[0], [&](int i, int j, int k) {
            double const x = centre(p.m, i);
            p.g[0](i, j, k) = static_cast<double>(-hclpp::units::G * mass[i] / x / x);
        });
#endif
    }
};

Mesh mesh_of(H5File const& f, RunCase const& r)
{
    Mesh m;
    m.ng = r.ng;
    m.nx = r.nx;
    for (int d = 0; d < 3; ++d) {
        m.ngh[d] = d < ndim ? r.ng : 0;
        m.x[d] = f.at("x" + std::to_string(d)).v;
        if (static_cast<int>(m.x[d].size()) != m.nx[d] + (2 * m.ngh[d]) + 1) {
            pbt::fail("x", d, " of ", f.name, " has ", m.x[d].size(), " values");
        }
    }
    return m;
}
World world_of(H5File const& f, Mesh const& m, int nfx, RefEos const& e)
{
    World w(m, nfx);
    std::size_t n = 0;
    std::vector<std::vector<double> const*> s;
    for (int k = 0; k < nfx; ++k) {
        s.push_back(&f.at("fx" + std::to_string(k)).v);
    }
    for (int k = 0; k < m.nx[2]; ++k) {
        for (int j = 0; j < m.nx[1]; ++j) {
            for (int i = 0; i < m.nx[0]; ++i, ++n) {
                ref::Prim q {f.at("rho").v[n], {0, 0, 0}, f.at("P").v[n]};
                for (int d = 0; d < ndim; ++d) {
                    q.u[d] = f.at("ux" + std::to_string(d)).v[n];
                }
                std::array<int, 3> const c {i + m.ngh[0], j + m.ngh[1], k + m.ngh[2]};
                set_cell(w, c[0], c[1], c[2], q, e);
                for (int t = 0; t < nfx; ++t) {
                    w.fx[t](c[0], c[1], c[2]) = (*s[t])[n];
                }
            }
        }
    }
    return w;
}
double largest_velocity(World const& w, Mesh const& m)
{
    double v = -std::numeric_limits<double>::infinity();
    for_each(w.rho, [&](int i, int j, int k) {
        if (ref::inside(m, {i, j, k})) {
            v = std::max(v, w.rhou[0](i, j, k) / w.rho(i, j, k));
        }
    });
    return v;
}
template <class V>
int index_of(V const& names, std::string const& s)
{
    for (int k = 0; k < static_cast<int>(std::size(names)); ++k) {
        if (s == names[k]) {
            return k;
        }
    }
    return -1;
}

} // namespace

PBT_TEST(transitions, 1)
{
    RunOpt o;
    o.shift = true;
    o.priority = true;
    RunCase r = random_run(c, o);
    Machine const m = random_machine(c, r, 3);
    int const iters = c.i(1, 4);
    r.ini.set("Run", "t_end", r.t_ini + (r.dt_est * c.d(0.4, 4.)));
    r.ini.set("Output", "iter_frequency", 1);
    r.ini.set("Output", "max_iter", iters);
    bool const dated = c.chance(1, 4);
    if (dated) {
        r.ini.set("Output", "time_frequency", r.dt_est * c.d(0.3, 1.5));
    }
    if (r.ini.get("Grid", "shift_grid") == "UserDefined" && c.b()) {
        double const hi = Model::num(r.ini, "Grid", "x0max", 1);
        double const lo = Model::num(r.ini, "Grid", "x0min", 0);
        r.ini.set("Problem", "rmax_shift", hi + (c.d(0., 4.) * (hi - lo) / r.nx[0]));
    }
    double const cfl = r.cfl;
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    std::string const dir = scratch_dir("o09");
    RunResult const res = run_program(r.ini, dir, m);
    auto const files = outputs(dir);
    Model model(r);
    bool const user_mesh = r.ini.get("Grid", "type") == "UserDefined";

    int k = 0;
    int compared = 0;
    H5File const* prev = nullptr;
    for (auto const& [name, f] : files) {
        Mesh const here = mesh_of(f, r);
        double const temp_tol = 1e-11;
        RefEos const e = model.eos;
        // derived quantities
        auto const& T = f.at("T").v;
        auto const& E = f.at("E").v;
        World w = world_of(f, here, r.nfx, e);
        std::size_t n = 0;
        for (int z = 0; z < r.nx[2]; ++z) {
            for (int y = 0; y < r.nx[1]; ++y) {
                for (int x = 0; x < r.nx[0]; ++x, ++n) {
                    ref::Cons const q = ref::get(w, {x + here.ngh[0], y + here.ngh[1], z + here.ngh[2]});
                    REQUIRE(pbt::close(E[n], q.E, 1e-11), "energy of cell ", n, " in ", name, " is ", E[n], " but its state has ", q.E);
                    double const want = e.temp_from_pres(f.at("rho").v[n], f.at("P").v[n]);
                    REQUIRE(pbt::close(T[n], want, temp_tol), "temperature of cell ", n, " in ", name, " is ", T[n], " instead of ", want);
                }
            }
        }
        REQUIRE(pbt::close(f.scalar("gamma"), r.gamma, 1e-15), "adiabatic index in ", name);
        if (prev == nullptr) {
            // the initial state is the one of the problem at the centres of the requested mesh
            for (int d = 0; d < ndim; ++d) {
                double const lo = Model::num(r.ini, "Grid", "x" + std::to_string(d) + "min", 0);
                double const hi = Model::num(r.ini, "Grid", "x" + std::to_string(d) + "max", 1);
                double const stretch = user_mesh ? Model::num(r.ini, "Initialisation", "stretch", 0) : 0;
                for (std::size_t i = 0; i < here.x[d].size(); ++i) {
                    double const s = (static_cast<double>(i) - r.ng) / r.nx[d];
                    double const want = lo + ((hi - lo) * (s + (stretch * std::sin(6.283185307179586 * s) / 6.283185307179586)));
                    REQUIRE(pbt::close(here.x[d][i], want, 1e-12, std::abs(lo) + std::abs(hi)), "coordinate ", i, " of direction ", d, " is ", here.x[d][i], " instead of ", want);
                }
            }
            auto const mid = [&](int d, int i) { return (here.x[d][i] + here.x[d][i + 1]) / 2; };
            bool const jump = model.user.step;
            n = 0;
            for (int z = 0; z < r.nx[2]; ++z) {
                for (int y = 0; y < r.nx[1]; ++y) {
                    for (int x = 0; x < r.nx[0]; ++x, ++n) {
                        auto const check = [&](std::string const& what, int id, double scale) {
                            double const want = hclpp::VerifState::at(model.user, id, mid(0, x + here.ngh[0]), mid(1, y + here.ngh[1]), mid(2, z + here.ngh[2]));
                            double const got = f.at(what).v[n];
                            if (!jump) { // (a position on a jump may fall on either side)
                                REQUIRE(pbt::close(got, want, 1e-10, scale), "initial ", what, " of cell ", n, " is ", got, " instead of ", want);
                            }
                        };
                        check("rho", 0, 0);
                        check("P", 1, 0);
                        for (int d = 0; d < ndim; ++d) {
                            check("ux" + std::to_string(d), 2 + d, std::abs(model.user.u0) + model.user.du);
                        }
                        for (int t = 0; t < r.nfx; ++t) {
                            check("fx" + std::to_string(t), 10 + t, 1);
                        }
                    }
                }
            }
            prev = &f;
            continue;
        }
        Problem p;
        p.m = mesh_of(*prev, r);
        p.e = e;
        p.nfx = r.nfx;
        p.solver = index_of(solver_names, r.ini.get("Hydro", "riemann_solver"));
        p.limiter = index_of(limiter_names, r.ini.get("Hydro", "reconstruction"));
        p.fix = r.ini.get("Pressure fix", "pressure_fix") == "On";
        p.eps = Model::num(r.ini, "Pressure fix", "eps_pf", 1e-6);
        p.w = world_of(*prev, p.m, r.nfx, e);
        model.ghosts(p.w, p.m);
        model.gravity(p);
        double const t = prev->scalar("current_time");
        p.dt = f.scalar("current_time") - t;
        double const limit = cfl * stability_limit(p);
        bool const last = f.name == files.rbegin()->first;
        double const slack = 1e-13 * (std::abs(t) + std::abs(p.dt));
        REQUIRE(p.dt <= (limit * (1 + 1e-9)) + slack, "the step to ", name, " is ", p.dt, ", longer than cfl times the stability limit ", limit);
        if (!dated && !last) {
            REQUIRE(p.dt >= (limit * (1 - 1e-9)) - slack, "the step to ", name, " is ", p.dt, " but cfl times the stability limit is ", limit);
        }
        Mag const s = magnitude(p);
        ref::Reference reference(p);
        World want = reference.run();
        bool usable = reference.valid && p.dt > 1e-6 * limit && std::abs(1 + t) > 1e-3;
        if (usable) {
            if (model.user_step) {
                for_each(want.rho, [&](int x, int y, int z) {
                    if (ref::inside(p.m, {x, y, z})) {
                        want.E(x, y, z) += 0.1 * p.dt * (1 + t) * want.rho(x, y, z);
                        for (auto& q : want.fx) {
                            q(x, y, z) *= 1 - (0.1 * p.dt / (1 + t));
                        }
                    }
                });
            }
            for_each(want.rho, [&](int x, int y, int z) {
                if (ref::inside(p.m, {x, y, z})) {
                    ref::Cons const q = ref::get(want, {x, y, z});
                    // a state at the edge of validity: the pressure of the file has lost its digits
                    usable = usable && q.rho > 1e-6 * s.rho && q.E - ref::ekin(q) > 1e-6 * s.E;
                }
            });
        }
        bool const moved = here.x[0] != p.m.x[0];
        REQUIRE(!moved || model.shifting, "the mesh of ", name, " has moved without being asked to");
        for (int d = 1; d < 3; ++d) {
            REQUIRE(here.x[d] == p.m.x[d], "coordinates of direction ", d, " have changed");
        }
        if (usable) {
            if (model.shifting) {
                double const v = largest_velocity(want, p.m);
                double const vmax = model.user.vmax_shift;
                bool const near = std::abs(v - vmax) < 1e-8 * (s.mom / s.rho);
                bool const asked = v >= vmax;
                // the outer edge of the domain or of its first ghost cell
                double const edge = p.m.x[0][r.nx[0] + r.ng];
                double const edge1 = p.m.x[0][r.nx[0] + r.ng + 1];
                if (!near) {
                    if (!asked || edge >= model.rmax) {
                        REQUIRE(!moved, "the mesh of ", name, " has moved, the criterion is ", asked, ", the edge is at ", edge, " and the limit at ", model.rmax);
                    }
                    if (asked && edge1 < model.rmax) {
                        REQUIRE(moved, "the mesh of ", name, " has not moved, the edge is at ", edge, " and the limit at ", model.rmax);
                    }
                }
                if (moved) {
                    model.ghosts(want, p.m);
                    auto x = p.m.x[0];
                    double const a = x[x.size() - 1] - x[x.size() - 2];
                    double const b = x[x.size() - 2] - x[x.size() - 3];
                    x.erase(x.begin());
                    x.push_back(x.back() + (a * (a / b)));
                    for (std::size_t i = 0; i < x.size(); ++i) {
                        REQUIRE(pbt::close(x[i], here.x[0][i], 1e-12, std::abs(x.back())), "coordinate ", i, " after moving is ", here.x[0][i], " instead of ", x[i]);
                    }
                    World const old = want;
                    auto const dst = want.all();
                    World tmp = old;
                    auto const src = tmp.all();
                    for_each(want.rho, [&](int i, int j, int l) {
                        if (i + 1 < want.rho.n[0]) {
                            for (std::size_t q = 0; q < dst.size(); ++q) {
                                (*dst[q])(i, j, l) = (*src[q])(i + 1, j, l);
                            }
                        }
                    });
                    c.label("moved");
                } else if (asked && !near) {
                    model.shifting = false;
                    model.bc[0][1] = Kind::Null;
                    c.label("stopped moving");
                } else if (near) {
                    break; // cannot tell whether it stopped
                }
            }
            require_same(w, want, here, s, 1e-8, pbt::cat("state of ", name));
            ++compared;
            c.label(p.fix ? "safeguard" : "plain");
        } else {
            c.label("unusable");
            if (model.shifting && !moved) {
                break;
            }
        }
        prev = &f;
        ++k;
    }
    if (compared == 0) {
        c.discard_if(!res.success() || files.size() < 2);
    }
    c.nontrivial(compared > 0);
    c.label(m.n > 1 ? "parallel" : "serial");
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
