// B03: priority of overlapping boundary conditions.
#include <pbt.hpp>

#include <algorithm>

#include <world.hpp>

using namespace hz;

namespace {

char const* const names[6] = {"X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"};

// writes its own tag in every ghost cell of its face
class Tag : public hclpp::IBoundaryCondition<UniformGravity>
{
    double m_tag;

public:
    Tag(int d, int face, double tag) : hclpp::IBoundaryCondition<UniformGravity>(d, face), m_tag(tag) {}
    void execute(Grid const& g, UniformGravity const&, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const override
    {
        int const d = bc_idim();
        int const ng = g.Nghost[d];
        int const n = rho.extent_int(d);
        for (int k = 0; k < rho.extent_int(2); ++k) {
            for (int j = 0; j < rho.extent_int(1); ++j) {
                for (int i = 0; i < rho.extent_int(0); ++i) {
                    int const p = d == 0 ? i : d == 1 ? j : k;
                    if (bc_iface() == 0 ? p < ng : p >= n - ng) {
                        rho(i, j, k) = m_tag;
                        for (int q = 0; q < ndim; ++q) {
                            rhou(i, j, k, q) = m_tag;
                        }
                        E(i, j, k) = m_tag;
                        for (int q = 0; q < fx.extent_int(3); ++q) {
                            fx(i, j, k, q) = m_tag;
                        }
                    }
                }
            }
        }
    }
};

} // namespace

PBT_TEST(winner, 4)
{
    reset(c);
    int const n = c.chance(1, 2) ? 1 : c.i(2, 6);
    auto const dims = random_dims(c, n);
    MeshOpt o;
    o.ng_min = 1;
    o.ng_max = 2;
    o.max_n = 5;
    o.parts = dims;
    Mesh const m = random_mesh(c, o);
    for (int d = 0; d < ndim; ++d) {
        c.discard_if(m.nx[d] < m.ngh[d] * dims[d]);
    }
    int const nfx = c.i(0, 2);
    int const nf = 2 * ndim;
    std::vector<int> order = random_perm(c, nf);
    bool const by_default = c.chance(1, 6);
    std::string list;
    if (by_default) {
        for (int k = 0; k < nf; ++k) {
            order[k] = k;
        }
    } else {
        for (int const f : order) {
            list += (list.empty() ? "" : " ") + std::string(names[f]);
        }
    }
    // a zero-gradient face that copies whatever lies next to it is also possible
    auto const param0 = make_param("[Boundary Condition]\nPriority = " + list + "\n");
    auto param = param0;
    param.nfx = nfx;
    c.note("%s ranks=%d %dx%dx%d priority '%s'", show(m).c_str(), n, dims[0], dims[1], dims[2], list.c_str());
    c.nontrivial(ndim > 1);
    c.label(by_default ? "default" : "listed");
    std::vector<int> rank_of(nf);
    for (int k = 0; k < nf; ++k) {
        rank_of[order[k]] = k;
    }
    pbt::u64 const seed = c.below(1000);
    ranks(
            n,
            [&](int) {
                Grid g(m.nx, dims, m.ng);
                set_grid(g, m);
                Local const l(g, nfx);
                for (int f = 0; f < l.nf(); ++f) {
                    l.each([&](int i, int j, int k) { l.at(f, i, j, k) = 1000; });
                }
                std::array<BcPtr, hclpp::nfaces> bcs;
                for (int f = 0; f < nf; ++f) {
                    bcs[f] = std::make_unique<Tag>(f / 2, f % 2, f + 1);
                }
                hclpp::DistributedBoundaryCondition const db(g, param);
                db(bcs, g, no_gravity(), l.rho, l.rhou, l.E, l.fx);
                auto const lo = g.range.Corner_min;
                l.each([&](int i, int j, int k) {
                    std::array<int, 3> const p {lo[0] + i, lo[1] + j, lo[2] + k};
                    int best = -1;
                    int covering = 0;
                    for (int d = 0; d < ndim; ++d) {
                        int face = -1;
                        if (p[d] < m.ng) {
                            face = 2 * d;
                        } else if (p[d] >= m.ng + m.nx[d]) {
                            face = (2 * d) + 1;
                        }
                        if (face >= 0) {
                            ++covering;
                            if (best < 0 || rank_of[face] < rank_of[best]) {
                                best = face;
                            }
                        }
                    }
                    double const ex = best < 0 ? 1000 : best + 1;
                    for (int f = 0; f < l.nf(); ++f) {
                        REQUIRE(l.at(f, i, j, k) == ex, "ghost (", p[0], ",", p[1], ",", p[2], ") shared by ", covering, " faces holds ", l.at(f, i, j, k) == 1000 ? "interior data" : names[static_cast<int>(std::clamp(l.at(f, i, j, k), 1., 6.)) - 1], " instead of ", best < 0 ? "interior data" : names[best]);
                    }
                });
            },
            seed);
}

// lists that are not a permutation of the faces
PBT_TEST(refused, 2)
{
    reset(c);
    int const nf = 2 * ndim;
    std::vector<int> order = random_perm(c, nf);
    std::vector<std::string> l;
    for (int const f : order) {
        l.push_back(names[f]);
    }
    int const kind = c.i(0, 3);
    int const at = c.i(0, nf - 1);
    if (kind == 0) {
        l.erase(l.begin() + at);
    } else if (kind == 1) {
        l[at] = l[(at + 1 + c.i(0, nf - 2)) % nf];
    } else if (kind == 2) {
        l[at] = c.pick({"X", "x_left", "X_Left", "Xleft", "X0_left", "W_left", "left"});
    } else {
        // a face of a direction that does not exist
        if (ndim == 3) {
            throw pbt::Discard();
        }
        l[at] = ndim == 1 ? c.pick({"Y_left", "Z_right", "Y_right", "Z_left"}) : c.pick({"Z_left", "Z_right"});
    }
    std::string list;
    for (auto const& s : l) {
        list += (list.empty() ? "" : " ") + s;
    }
    c.note("'%s'", list.c_str());
    c.nontrivial();
    if (list.empty()) {
        throw pbt::Discard();
    }
    auto const param = make_param("[Boundary Condition]\nPriority = " + list + "\n");
    Mesh m;
    MeshOpt o;
    m = random_mesh(c, o);
    auto const g = make_grid(m);
    bool thrown = false;
    try {
        hclpp::DistributedBoundaryCondition const db(*g, param);
    } catch (std::exception const&) {
        thrown = true;
    }
    REQUIRE(thrown, "a priority list that is not a permutation of the faces is accepted: '", list, "'");
    check_faults();
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
