// O01: what is written is the state, and reading it back restores it.
#include <files.hpp>
#include <git_version.hpp>
#include <runs.hpp>

#include "setup_verif/setup.hpp"

using namespace hz;

namespace {

struct Meta
{
    int output_id, iter_output_id, time_output_id, iter;
    double t, gamma;
};
struct Written
{
    Mesh m;
    int nfx = 0;
    pbt::u64 salt = 0;
    Meta meta {};
    std::string dir, prefix;
    std::string path() const { return dir + "/" + output_name(prefix, meta.output_id); }
};

int any_int(pbt::Case& c)
{
    return c.chance(1, 3) ? c.pick({-1, std::numeric_limits<int>::max(), 99999999, 12345}) : c.i(0, 200);
}

hclpp::Param params(int nfx)
{
    auto p = make_param("");
    p.nfx = nfx;
    return p;
}
struct Pdi
{
    PC_tree_t tree;
    Pdi() : tree(PC_parse_string(io_config)) { PDI_init(tree); }
    Pdi(Pdi const&) = delete;
    ~Pdi()
    {
        PDI_finalize();
        PC_tree_destroy(&tree);
    }
};
// all fields: interior from the global salt, ghosts something else on every process
void fill(Grid const& g, Fields const& f, Written const& w, int rank)
{
    auto const lo = g.range.Corner_min;
    for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
        for (int j = 0; j < g.Nx_local_wg[1]; ++j) {
            for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
                bool const in = interior(g, i, j, k);
                for (int q = 0; q < f.nf(); ++q) {
                    f.at(q, i, j, k) = in ? cell_double(w.salt, q, lo[0] + i - g.Nghost[0], lo[1] + j - g.Nghost[1], lo[2] + k - g.Nghost[2])
                                          : 1e200 + (rank * 1e199) + (q * 1e198);
                }
            }
        }
    }
    std::array<KDV_double_1d const*, 3> const x {&f.x0, &f.x1, &f.x2};
    for (int d = 0; d < 3; ++d) {
        for (std::size_t q = 0; q < w.m.x[d].size(); ++q) {
            (*x[d])(hclpp::host)(q) = w.m.x[d][q];
        }
    }
}
void write(Written const& w, std::array<int, 3> dims, int n, pbt::u64 seed, std::vector<int> const& perm)
{
    auto const param = params(w.nfx);
    ranks(
            n,
            [&](int rank) {
                Pdi const pdi;
                Grid g(w.m.nx, dims, w.m.ng);
                set_grid(g, w.m);
                Fields const f(g, w.nfx);
                fill(g, f, w, rank);
                hclpp::write_pdi_init(g, param);
                // what other processes would write if they wrote replicated data
                Meta m = w.meta;
                if (g.mpi_rank != 0) {
                    m.t += 1;
                    m.iter += 1;
                }
                hclpp::write_pdi(
                        w.dir, w.prefix, w.meta.output_id, m.iter_output_id, m.time_output_id, m.iter, m.t, m.gamma, g,
                        f.rho.const_view(), f.u.const_view(), f.P.const_view(), f.E.const_view(),
                        f.x0.const_view(), f.x1.const_view(), f.x2.const_view(), f.fx.const_view(), f.T.const_view());
                // writing does not change the state
                Fields const f2(g, w.nfx);
                fill(g, f2, w, rank);
                for (int q = 0; q < f.nf(); ++q) {
                    for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                        for (int j = 0; j < g.Nx_local_wg[1]; ++j) {
                            for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
                                REQUIRE(same_bits(f.at(q, i, j, k), f2.at(q, i, j, k)), "writing changed ", Fields::name(q));
                            }
                        }
                    }
                }
            },
            seed, perm);
}
void inspect(Written const& w)
{
    H5File h;
    REQUIRE(h5_read(w.path(), h), "the output ", w.path(), " is not a readable HDF5 file");
    std::map<std::string, int> want {{"output_id", 0}, {"iter_output_id", 0}, {"time_output_id", 0}, {"iter", 0}, {"current_time", 0}, {"gamma", 0}};
    REQUIRE(h.integer("output_id") == w.meta.output_id, "output_id ", h.integer("output_id"));
    REQUIRE(h.integer("iter_output_id") == w.meta.iter_output_id, "iter_output_id ", h.integer("iter_output_id"));
    REQUIRE(h.integer("time_output_id") == w.meta.time_output_id, "time_output_id ", h.integer("time_output_id"));
    REQUIRE(h.integer("iter") == w.meta.iter, "iter ", h.integer("iter"), " instead of ", w.meta.iter);
    REQUIRE(same_bits(h.scalar("current_time"), w.meta.t), "current_time ", h.scalar("current_time"), " instead of ", w.meta.t);
    REQUIRE(same_bits(h.scalar("gamma"), w.meta.gamma), "gamma ", h.scalar("gamma"));
    for (int d = 0; d < 3; ++d) {
        std::string const n = "x" + std::to_string(d);
        want[n] = 0;
        want[n + "_ng"] = 0;
        auto const& x = h.at(n);
        auto const& y = h.at(n + "_ng");
        auto const& e = w.m.x[d];
        REQUIRE(x.dims == std::vector<long> {static_cast<long>(e.size())}, n, " has the wrong extent");
        REQUIRE(y.dims == std::vector<long> {w.m.nx[d] + 1}, n, "_ng has the wrong extent");
        for (std::size_t q = 0; q < e.size(); ++q) {
            REQUIRE(same_bits(x.v[q], e[q]), n, "[", q, "] is ", x.v[q], " instead of ", e[q]);
        }
        for (int q = 0; q <= w.m.nx[d]; ++q) {
            REQUIRE(same_bits(y.v[q], e[q + w.m.ngh[d]]), n, "_ng[", q, "] is ", y.v[q], " instead of ", e[q + w.m.ngh[d]]);
        }
    }
    for (int q = 0; q < 4 + ndim + w.nfx; ++q) {
        std::string const n = Fields::name(q);
        want[n] = 0;
        auto const& x = h.at(n);
        REQUIRE((x.dims == std::vector<long> {w.m.nx[2], w.m.nx[1], w.m.nx[0]}), n, " has the wrong extents");
        std::size_t p = 0;
        for (int k = 0; k < w.m.nx[2]; ++k) {
            for (int j = 0; j < w.m.nx[1]; ++j) {
                for (int i = 0; i < w.m.nx[0]; ++i, ++p) {
                    REQUIRE(same_bits(x.v[p], cell_double(w.salt, q, i, j, k)), n, " of cell (", i, ",", j, ",", k, ") is ", x.v[p], " in the file, ", cell_double(w.salt, q, i, j, k), " in the state");
                }
            }
        }
    }
    for (auto const& [n, x] : h.d) {
        REQUIRE(want.count(n) == 1, "unexpected dataset ", n);
    }
}
void read(Written const& w, std::array<int, 3> dims, int n, pbt::u64 seed, std::vector<int> const& perm)
{
    auto const param = params(w.nfx);
    ranks(
            n,
            [&](int) {
                Pdi const pdi;
                Grid g(w.m.nx, dims, w.m.ng);
                Fields const f(g, w.nfx);
                hclpp::write_pdi_init(g, param);
                Meta m {-7, -7, -7, -7, -7, -7};
                hclpp::read_pdi(w.path(), g, m.output_id, m.iter_output_id, m.time_output_id, m.iter, m.t, f.rho, f.u, f.P, f.fx, f.x0, f.x1, f.x2);
                REQUIRE(m.output_id == w.meta.output_id && m.iter_output_id == w.meta.iter_output_id && m.time_output_id == w.meta.time_output_id && m.iter == w.meta.iter,
                        "counters are not restored: ", m.output_id, " ", m.iter_output_id, " ", m.time_output_id, " ", m.iter);
                REQUIRE(same_bits(m.t, w.meta.t), "the time ", w.meta.t, " is restored as ", m.t);
                std::array<KDV_double_1d const*, 3> const x {&f.x0, &f.x1, &f.x2};
                for (int d = 0; d < 3; ++d) {
                    for (std::size_t q = 0; q < w.m.x[d].size(); ++q) {
                        REQUIRE(same_bits((*x[d])(hclpp::device)(q), w.m.x[d][q]), "x", d, "[", q, "] is not restored");
                    }
                }
                auto const lo = g.range.Corner_min;
                for (int q = 0; q < f.nf(); ++q) {
                    if (q == 2 || q == 3) {
                        continue; // energy and temperature are derived
                    }
                    for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                        for (int j = 0; j < g.Nx_local_wg[1]; ++j) {
                            for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
                                if (!interior(g, i, j, k)) {
                                    continue;
                                }
                                double const e = cell_double(w.salt, q, lo[0] + i - g.Nghost[0], lo[1] + j - g.Nghost[1], lo[2] + k - g.Nghost[2]);
                                REQUIRE(same_bits(f.at(q, i, j, k), e), Fields::name(q), " of global cell (", lo[0] + i - g.Nghost[0], ",", lo[1] + j - g.Nghost[1], ",", lo[2] + k - g.Nghost[2], ") is read as ", f.at(q, i, j, k), " instead of ", e);
                            }
                        }
                    }
                }
            },
            seed, perm);
}

} // namespace

PBT_TEST(round_trip, 1)
{
    install_capture();
    reset(c);
    Written w;
    int const n = c.i(1, 6);
    int const n2 = c.i(1, 6);
    auto const dims = random_dims(c, n);
    auto const dims2 = random_dims(c, n2);
    MeshOpt o;
    o.ng_min = 1;
    for (int d = 0; d < 3; ++d) {
        o.parts[d] = std::max(dims[d], dims2[d]);
    }
    w.m = random_mesh(c, o);
    w.nfx = c.chance(1, 6) ? 10 : c.i(0, 4);
    w.salt = c.below(100000);
    w.prefix = c.pick(std::vector<std::string> {"result", "a.b-c_d", "p"});
    w.dir = scratch_dir("o01");
    w.meta = {c.i(0, 300), any_int(c), any_int(c), any_int(c) % 1000000, any_double(c), any_double(c)};
    if (c.chance(1, 5)) {
        w.meta.output_id = c.pick({99999999, 10000000, 123456789});
    }
    if (c.chance(1, 3)) {
        // an older file of that name, with other contents
        Written old = w;
        old.nfx = c.i(0, 5);
        old.salt = w.salt + 1;
        old.meta.t = 1e3;
        write(old, dims, n, c.below(100), {});
        c.label("replaces a file");
    }
    auto const perm = random_perm(c, n);
    auto const perm2 = random_perm(c, n2);
    c.note("%s nfx=%d ranks %d (%dx%dx%d) -> %d (%dx%dx%d) id=%d iter=%d t=%.17g", show(w.m).c_str(), w.nfx, n, dims[0], dims[1], dims[2], n2, dims2[0], dims2[1], dims2[2], w.meta.output_id, w.meta.iter, w.meta.t);
    c.nontrivial(n > 1 || n2 > 1 || w.nfx > 0);
    c.label(pbt::cat("ranks", n));
    write(w, dims, n, c.below(1000), perm);
    inspect(w);
    read(w, dims2, n2, c.below(1000), perm2);
}

namespace {

std::string string_attribute(std::string const& path, char const* name)
{
    hid_t const f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0 || H5Aexists(f, name) <= 0) {
        H5Fclose(f);
        return "(none)";
    }
    hid_t const a = H5Aopen(f, name, H5P_DEFAULT);
    hid_t const t = H5Aget_type(a);
    std::string s = "(not a string)";
    if (H5Tget_class(t) == H5T_STRING && H5Tis_variable_str(t) > 0) {
        char* v = nullptr;
        H5Aread(a, t, &v);
        s = v == nullptr ? "" : v;
        H5free_memory(v);
    } else if (H5Tget_class(t) == H5T_STRING) {
        s.assign(H5Tget_size(t), '\0');
        H5Aread(a, t, s.data());
        s.resize(std::strlen(s.c_str()));
    }
    H5Tclose(t);
    H5Aclose(a);
    H5Fclose(f);
    return s;
}

} // namespace

// the outputs of a run: the first one is the initial state of the problem, all of them are states of one gas
PBT_TEST(run_outputs, 0.5)
{
    RunOpt o;
    o.shift = true;
    RunCase r = random_run(c, o);
    r.ini.set("Run", "t_end", r.t_ini + (c.d(0.5, 4.) * r.dt_est));
    r.ini.set("Output", "iter_frequency", c.i(1, 3));
    r.ini.set("Output", "max_iter", 12);
    std::string const prefix = c.pick(std::vector<std::string> {"result", "a.b-c_d", "p"});
    if (prefix != "result") {
        r.ini.set("Output", "prefix", prefix);
    }
    Machine const m = random_machine(c, r, 4);
    c.note("%s | %s", r.ini.show().c_str(), show(m).c_str());
    std::string const dir = scratch_dir("o01run");
    RunResult const x = run_program(r.ini, dir, m);
    c.discard_if(!x.success());
    auto const out = outputs(dir);
    REQUIRE(!out.empty() && out.begin()->first == output_name(prefix, 0), "the initial state is not saved");
    INIReader const reader(dir + "/input.ini");
    hclpp::ParamSetup const p(reader);
    bool const shifted = !r.ini.get("Grid", "shift_grid").empty();
    int id = 0;
    double const mu = std::stod(r.ini.get("Perfect Gas", "mu"));
    for (auto const& [name, f] : out) {
        REQUIRE(name == output_name(prefix, id) && f.integer("output_id") == id, "output ", id, " is named ", name, " and numbered ", f.integer("output_id"));
        REQUIRE(f.scalar("gamma") == r.gamma, name, ": gamma is ", f.scalar("gamma"));
        for (auto const& [attr, want] : {std::pair {"git_build_string", hclpp::git_build_string}, {"git_branch", hclpp::git_branch}, {"compile_date", hclpp::compile_date}, {"compile_time", hclpp::compile_time}}) {
            auto const got = string_attribute(dir + "/" + name, attr);
            REQUIRE(got == want, name, ": the attribute ", attr, " is '", got, "' instead of '", want, "'");
        }
        std::array<std::vector<double>, 3> xs;
        for (int d = 0; d < 3; ++d) {
            int const g = d < ndim ? r.ng : 0;
            auto const& xg = f.at("x" + std::to_string(d)).v;
            auto const& xn = f.at("x" + std::to_string(d) + "_ng").v;
            REQUIRE(static_cast<int>(xg.size()) == r.nx[d] + (2 * g) + 1 && static_cast<int>(xn.size()) == r.nx[d] + 1, name, ": coordinates of direction ", d, " have the wrong extent");
            for (int q = 0; q <= r.nx[d]; ++q) {
                REQUIRE(xn[q] == xg[q + g], name, ": x", d, "_ng is not the interior part of x", d);
                REQUIRE(q == 0 || xn[q] > xn[q - 1], name, ": x", d, "_ng is not increasing");
            }
            if (r.uniform && !shifted) {
                for (int q = 0; q <= r.nx[d]; ++q) {
                    double const e = p.xmin[d] + ((p.xmax[d] - p.xmin[d]) * q / r.nx[d]);
                    REQUIRE(std::abs(xn[q] - e) <= 1e-12 * (std::abs(p.xmin[d]) + std::abs(p.xmax[d])), name, ": x", d, "_ng[", q, "] = ", xn[q], " instead of ", e);
                }
            }
            xs[d] = xn;
        }
        std::vector<std::string> fields {"rho", "P", "E", "T"};
        for (int d = 0; d < ndim; ++d) {
            fields.push_back("ux" + std::to_string(d));
        }
        for (int q = 0; q < r.nfx; ++q) {
            fields.push_back("fx" + std::to_string(q));
        }
        for (auto const& n : fields) {
            REQUIRE((f.at(n).dims == std::vector<long> {r.nx[2], r.nx[1], r.nx[0]}), name, ": ", n, " has the wrong extents");
        }
        REQUIRE(f.d.size() == fields.size() + 12, name, " holds ", f.d.size(), " datasets instead of ", fields.size() + 12);
        std::size_t q = 0;
        for (int k = 0; k < r.nx[2]; ++k) {
            for (int j = 0; j < r.nx[1]; ++j) {
                for (int i = 0; i < r.nx[0]; ++i, ++q) {
                    double const rho = f.at("rho").v[q];
                    double const P = f.at("P").v[q];
                    double kin = 0;
                    for (int d = 0; d < ndim; ++d) {
                        double const u = f.at("ux" + std::to_string(d)).v[q];
                        kin += 0.5 * rho * u * u;
                    }
                    double const E = (P / (r.gamma - 1)) + kin;
                    REQUIRE(std::abs(f.at("E").v[q] - E) <= 1e-11 * (std::abs(E) + kin), name, ": E of cell (", i, ",", j, ",", k, ") = ", f.at("E").v[q], ", pressure and kinetic energy give ", E);
                    double const T = P * mu * 1.67262158e-27 / (rho * 1.380649e-23);
                    REQUIRE(std::abs(f.at("T").v[q] - T) <= 1e-2 * std::abs(T), name, ": T of cell (", i, ",", j, ",", k, ") = ", f.at("T").v[q], ", the ideal gas law gives ", T);
                    REQUIRE(std::abs((f.at("T").v[q] / T) - (f.at("T").v[0] / f.at("P").v[0] * f.at("rho").v[0] / (T / P * rho))) <= 1e-12, name, ": T is not proportional to P / rho at cell (", i, ",", j, ",", k, ")");
                    if (id > 0) {
                        continue;
                    }
                    // the position of the cell centre
                    std::array<int, 3> const at {i, j, k};
                    std::array<double, 3> s {};
                    for (int d = 0; d < 3; ++d) {
                        s[d] = 0.5 * (xs[d][at[d]] + xs[d][at[d] + 1]);
                    }
                    double const want_rho = hclpp::VerifState::at(p, 0, s[0], s[1], s[2]);
                    if (p.step) {
                        // a rounding of the position may change the side of a jump
                        double const w1 = std::abs(want_rho - rho);
                        REQUIRE(w1 <= 1e-9 * p.rho0 || std::abs(w1 - (2 * p.rho0 * p.drho)) <= 1e-9 * p.rho0, "the initial density of cell (", i, ",", j, ",", k, ") is ", rho, " instead of ", want_rho);
                        continue;
                    }
                    REQUIRE(std::abs(rho - want_rho) <= 1e-10 * p.rho0, "the initial density of cell (", i, ",", j, ",", k, ") is ", rho, " instead of ", want_rho);
                    double const want_P = hclpp::VerifState::at(p, 1, s[0], s[1], s[2]);
                    REQUIRE(std::abs(P - want_P) <= 1e-10 * (p.P0 + kin), "the initial pressure of cell (", i, ",", j, ",", k, ") is ", P, " instead of ", want_P);
                    for (int d = 0; d < ndim; ++d) {
                        double const u = f.at("ux" + std::to_string(d)).v[q];
                        double const wu = hclpp::VerifState::at(p, 2 + d, s[0], s[1], s[2]);
                        REQUIRE(std::abs(u - wu) <= 1e-10 * (std::abs(p.u0) + p.du), "the initial velocity ", d, " of cell (", i, ",", j, ",", k, ") is ", u, " instead of ", wu);
                    }
                    for (int n = 0; n < r.nfx; ++n) {
                        double const v = f.at("fx" + std::to_string(n)).v[q];
                        double const wv = hclpp::VerifState::at(p, 10 + n, s[0], s[1], s[2]);
                        REQUIRE(std::abs(v - wv) <= 1e-10, "the initial scalar ", n, " of cell (", i, ",", j, ",", k, ") is ", v, " instead of ", wv);
                    }
                }
            }
        }
        ++id;
    }
    if (!shifted) {
        c.label(pbt::cat(m.n, " ranks"));
    }
    c.nontrivial(out.size() > 1);
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
