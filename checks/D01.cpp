// D01: mirrored host/device arrays.
#include <dual_view.hpp>
#include <harness.hpp>
#include <pbt.hpp>

using namespace hz;
using hclpp::DualView;

namespace {

// what the two sides must hold
struct Model
{
    bool shared;
    std::vector<double> side[2]; // device, host
    int newest = -1; // -1: in sync

    std::vector<double>& at(int s) { return side[shared ? 0 : s]; }
    bool stale(int s) const { return newest >= 0 && newest != s; }
    void sync(int s)
    {
        if (stale(s)) {
            at(s) = at(1 - s);
            newest = -1;
        }
    }
};

template <class V>
std::vector<double> content(V const& v)
{
    std::vector<double> r;
    if constexpr (V::rank == 1) {
        for (int i = 0; i < v.extent_int(0); ++i) {
            r.push_back(v(i));
        }
    } else if constexpr (V::rank == 2) {
        for (int i = 0; i < v.extent_int(0); ++i) {
            for (int j = 0; j < v.extent_int(1); ++j) {
                r.push_back(v(i, j));
            }
        }
    } else if constexpr (V::rank == 3) {
        for (int i = 0; i < v.extent_int(0); ++i) {
            for (int j = 0; j < v.extent_int(1); ++j) {
                for (int k = 0; k < v.extent_int(2); ++k) {
                    r.push_back(v(i, j, k));
                }
            }
        }
    } else {
        r.push_back(v());
    }
    return r;
}
template <class V>
void set(V const& v, std::size_t at, double x)
{
    std::size_t const e1 = V::rank > 1 ? v.extent_int(1) : 1;
    std::size_t const e2 = V::rank > 2 ? v.extent_int(2) : 1;
    if constexpr (V::rank == 0) {
        v() = x;
    } else if constexpr (V::rank == 1) {
        v(static_cast<int>(at)) = x;
    } else if constexpr (V::rank == 2) {
        v(static_cast<int>(at / e1), static_cast<int>(at % e1)) = x;
    } else {
        v(static_cast<int>(at / (e1 * e2)), static_cast<int>(at / e2 % e1), static_cast<int>(at % e2)) = x;
    }
}

template <class DV>
struct Machine
{
    using Const = decltype(std::declval<DV const&>().const_view());
    std::vector<DV> names;
    std::vector<Const> constants;
    Model m;
    double next = 1;

    template <class T, class D>
    void compare(T const& target, D const& dv, int s, char const* what)
    {
        auto const v = dv(target, hclpp::read_only);
        m.sync(s);
        auto const got = content(v);
        auto const& ex = m.at(s);
        REQUIRE(got.size() == ex.size(), what, ": ", got.size(), " elements instead of ", ex.size());
        for (std::size_t k = 0; k < ex.size(); ++k) {
            REQUIRE(got[k] == ex[k], what, ": element ", k, " on the ", s == 0 ? "device" : "host", " is ", got[k], " instead of ", ex[k]);
        }
    }
    template <class T>
    void write(pbt::Case& c, T const& target, int s, DV const& dv, int how)
    {
        // 0 read_write by tag, 1 read_write by default, 2 discard_write
        bool const discard = how == 2;
        auto const v = how == 0 ? dv(target, hclpp::read_write) : how == 1 ? dv(target) : dv(target, hclpp::discard_write);
        if (!discard) {
            m.sync(s);
            auto const got = content(v);
            for (std::size_t k = 0; k < got.size(); ++k) {
                REQUIRE(got[k] == m.at(s)[k], "element ", k, " opened for reading and writing on the ", s == 0 ? "device" : "host", " is ", got[k], " instead of ", m.at(s)[k]);
            }
        }
        m.newest = s;
        std::size_t const n = m.at(s).size();
        std::size_t const from = discard || n == 0 ? 0 : c.below(n);
        std::size_t const to = discard || n == 0 ? n : from + 1 + c.below(n - from);
        for (std::size_t k = from; k < to; ++k) {
            set(v, k, next);
            m.at(s)[k] = next;
            next += 1;
        }
    }
    template <class T>
    void act(pbt::Case& c, T const& target, int s, int op, std::size_t who)
    {
        DV const& dv = names[who];
        switch (op) {
        case 0:
            compare(target, dv, s, "read");
            break;
        case 1:
        case 2:
        case 3:
            write(c, target, s, dv, op - 1);
            break;
        case 4:
            dv.synchronize(target);
            m.sync(s);
            break;
        case 5:
            if (!constants.empty()) {
                compare(target, constants[who % constants.size()], s, "read through a constant view");
            }
            break;
        default:
            break;
        }
    }
    void observe(char const* after)
    {
        for (auto const& dv : names) {
            REQUIRE(dv.need_synchronization(hclpp::device) == m.stale(0), after, ": need for a synchronisation of the device is reported as ", dv.need_synchronization(hclpp::device));
            REQUIRE(dv.need_synchronization(hclpp::host) == m.stale(1), after, ": need for a synchronisation of the host is reported as ", dv.need_synchronization(hclpp::host));
        }
        for (auto const& dv : constants) {
            REQUIRE(dv.need_synchronization(hclpp::device) == m.stale(0), after, ": constant view: need for a synchronisation of the device");
            REQUIRE(dv.need_synchronization(hclpp::host) == m.stale(1), after, ": constant view: need for a synchronisation of the host");
        }
    }
};

template <class D>
void require_extent(D const& d, int r, int e)
{
    REQUIRE(d.extent(r) == static_cast<std::size_t>(e) && d.extent_int(r) == e, "extent ", r, " is ", d.extent(r), " instead of ", e);
}

char const* const op_names[] = {"read", "read_write", "read_write()", "discard_write", "sync", "const read", "clear", "copy", "assign", "const", "move", "drop"};

template <class DV, class... E>
void history(pbt::Case& c, bool shared, E... extents)
{
    reset(c);
    Machine<DV> a;
    a.m.shared = shared;
    std::size_t n = 1;
    ((n *= static_cast<std::size_t>(extents)), ...);
    a.names.emplace_back("the label", extents...);
    a.m.side[0].assign(n, 0);
    a.m.side[1].assign(n, 0);
    DV const& first = a.names[0];
    REQUIRE(first.label() == "the label", "label ", first.label());
    REQUIRE(first.is_allocated(), "not allocated");
    REQUIRE(first.size() == n && first.span() == n && first.span_is_contiguous(), "size");
    int r = 0;
    ((void)(require_extent(first, r++, static_cast<int>(extents))), ...);
    REQUIRE(!DV().is_allocated(), "a default constructed array is allocated");
    int const steps = c.i(1, 25);
    std::string log;
    int writes = 0;
    for (int s = 0; s < steps; ++s) {
        int const op = c.i(0, 11);
        int const side = c.i(0, 1);
        std::size_t const who = c.below(a.names.size());
        log += pbt::cat(log.empty() ? "" : " ", side == 0 ? "d:" : "h:", op_names[op]);
        writes += op >= 1 && op <= 3 ? 1 : 0;
        if (op <= 5) {
            side == 0 ? a.act(c, hclpp::device, 0, op, who) : a.act(c, hclpp::host, 1, op, who);
        } else if (op == 6) {
            a.names[who].clear_synchronization_state();
            a.m.newest = -1;
        } else if (op == 7) {
            a.names.push_back(DV(a.names[who]));
        } else if (op == 8) {
            DV other;
            other = a.names[who];
            a.names.push_back(other);
        } else if (op == 9) {
            if (c.b()) {
                a.constants.push_back(a.names[who].const_view());
            } else {
                typename Machine<DV>::Const k;
                k = a.names[who];
                a.constants.push_back(k);
            }
        } else if (op == 10) {
            DV moved(std::move(a.names[who]));
            a.names[who] = std::move(moved);
        } else if (a.names.size() > 1) {
            a.names.erase(a.names.begin() + static_cast<long>(who));
        }
        a.observe(log.c_str());
    }
    c.note("%zu elements %s: %s", n, shared ? "shared" : "separate", log.c_str());
    c.nontrivial(writes > 0 && steps > 2);
    // everything is there in the end, on both sides
    int const last = c.i(0, 1);
    for (int k = 0; k < 2; ++k) {
        int const s = (last + k) % 2;
        s == 0 ? a.compare(hclpp::device, a.names[0], 0, "final read") : a.compare(hclpp::host, a.names[0], 1, "final read");
    }
    check_faults();
}

} // namespace

PBT_TEST(separate, 3)
{
    switch (c.i(0, 4)) {
    case 0:
        history<DualView<double*>>(c, false, c.i(0, 7));
        break;
    case 1:
        history<DualView<double**>>(c, false, c.i(0, 4), c.i(1, 4));
        break;
    case 2:
        history<DualView<double***>>(c, false, c.i(1, 3), c.i(1, 3), c.i(1, 3));
        break;
    case 3:
        history<DualView<int**, Kokkos::LayoutLeft>>(c, false, c.i(1, 4), c.i(1, 4));
        break;
    default:
        history<DualView<double>>(c, false);
        break;
    }
}
PBT_TEST(shared, 1)
{
    switch (c.i(0, 1)) {
    case 0:
        history<DualView<double*, Kokkos::LayoutRight, Kokkos::HostSpace>>(c, true, c.i(0, 7));
        break;
    default:
        history<DualView<double***, Kokkos::LayoutLeft, Kokkos::HostSpace>>(c, true, c.i(1, 3), c.i(1, 3), c.i(1, 3));
        break;
    }
}

int main(int argc, char** argv)
{
    return pbt::main(argc, argv);
}
