#pragma once

#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iostream>
#include <limits>
#include <memory>
#include <new>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "Kokkos_Abort.hpp"
#include "Kokkos_Array.hpp"
#include "Kokkos_Assert.hpp"
#include "Kokkos_Macros.hpp"
#include "Kokkos_MathematicalConstants.hpp"
#include "Kokkos_MathematicalFunctions.hpp"
#include "Kokkos_MinMaxClamp.hpp"
#include "Kokkos_NumericTraits.hpp"
#include "Kokkos_Pair.hpp"
#include "Kokkos_Printf.hpp"

namespace Kokkos {

// ---------------------------------------------------------------- spaces, layouts, traits

struct HostSpace;

namespace kstub_detail {
struct DeviceSpace;
}
struct Serial;
struct Device_;

struct HostSpace
{
    using is_memory_space_tag = void;
    using memory_space = HostSpace;
    using execution_space = Serial;
    static constexpr char const* name() { return "Host"; }
};

struct SharedHostPinnedSpace
{
    using is_memory_space_tag = void;
    using memory_space = SharedHostPinnedSpace;
    using execution_space = Device_;
    static constexpr char const* name() { return "Pinned"; }
};

struct SharedSpace
{
    using is_memory_space_tag = void;
    using memory_space = SharedSpace;
    using execution_space = Device_;
    static constexpr char const* name() { return "Shared"; }
};

namespace kstub_detail {
struct DeviceSpace
{
    using is_memory_space_tag = void;
    using memory_space = DeviceSpace;
    using execution_space = Device_;
    static constexpr char const* name() { return "Device"; }
};
} // namespace kstub_detail

struct Serial
{
    using is_execution_space_tag = void;
    using execution_space = Serial;
    using memory_space = HostSpace;
    void fence(std::string const& = "") const {}
    int concurrency() const { return 1; }
    static char const* name() { return "Serial"; }
};

// "Device" execution space of the stand-in
struct Device_
{
    using is_execution_space_tag = void;
    using execution_space = Device_;
    using memory_space = kstub_detail::DeviceSpace;
    void fence(std::string const& = "") const {}
    int concurrency() const { return 1; }
    static char const* name() { return "Device"; }
};

using DefaultExecutionSpace = Device_;
using DefaultHostExecutionSpace = Serial;

template <class Exec, class Mem>
struct Device
{
    using execution_space = Exec;
    using memory_space = Mem;
};

enum MemoryTraitsFlags { Unmanaged = 1, RandomAccess = 2, Atomic = 4, Restrict = 8, Aligned = 16 };

template <unsigned F = 0>
struct MemoryTraits
{
    using is_memory_traits_tag = void;
    static constexpr unsigned impl_value = F;
    static constexpr bool is_unmanaged = F & unsigned(Unmanaged);
};
using MemoryUnmanaged = MemoryTraits<Unmanaged>;
using MemoryManaged = MemoryTraits<0>;

namespace kstub_detail {
struct layout_base
{
    std::size_t dimension[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    friend bool operator==(layout_base const& a, layout_base const& b)
    {
        for (int i = 0; i < 8; ++i) {
            if (a.dimension[i] != b.dimension[i]) {
                return false;
            }
        }
        return true;
    }
};
} // namespace kstub_detail

struct LayoutLeft : kstub_detail::layout_base
{
    using is_array_layout_tag = void;
    LayoutLeft() = default;
    template <class... I>
        requires(sizeof...(I) >= 1 && (std::is_convertible_v<I, std::size_t> && ...))
    explicit LayoutLeft(I... i) : kstub_detail::layout_base {{static_cast<std::size_t>(i)...}}
    {
    }
};
struct LayoutRight : kstub_detail::layout_base
{
    using is_array_layout_tag = void;
    LayoutRight() = default;
    template <class... I>
        requires(sizeof...(I) >= 1 && (std::is_convertible_v<I, std::size_t> && ...))
    explicit LayoutRight(I... i) : kstub_detail::layout_base {{static_cast<std::size_t>(i)...}}
    {
    }
};
struct LayoutStride : kstub_detail::layout_base
{
    using is_array_layout_tag = void;
    std::size_t stride[8] = {0, 0, 0, 0, 0, 0, 0, 0};
};

struct AllType
{
    constexpr AllType const& operator()() const { return *this; }
};
using ALL_t = AllType;
inline constexpr AllType ALL {};

struct WithoutInitializing_t
{
};
struct SequentialHostInit_t
{
};
inline constexpr WithoutInitializing_t WithoutInitializing {};

namespace kstub_detail {

template <class DT>
struct data_type_info
{
    using value_type = DT;
    static constexpr std::size_t rank = 0;
    template <class V>
    using rebind = V;
};
template <class DT>
struct data_type_info<DT*>
{
    using value_type = typename data_type_info<DT>::value_type;
    static constexpr std::size_t rank = 1 + data_type_info<DT>::rank;
    template <class V>
    using rebind = typename data_type_info<DT>::template rebind<V>*;
};

template <class V, std::size_t N>
struct add_ptrs
{
    using type = typename add_ptrs<V, N - 1>::type*;
};
template <class V>
struct add_ptrs<V, 0>
{
    using type = V;
};

template <class T>
concept MemSpace = requires { typename T::is_memory_space_tag; };
template <class T>
concept ExecSpace = requires { typename T::is_execution_space_tag; };
template <class T>
concept ArrayLayout = requires { typename T::is_array_layout_tag; };
template <class T>
concept MemTraits = requires { typename T::is_memory_traits_tag; };

template <class... P>
struct find_layout
{
    using type = LayoutRight; // overridden by a "device" default below
    static constexpr bool found = false;
};
template <class H, class... P>
struct find_layout<H, P...> : find_layout<P...>
{
};
template <ArrayLayout H, class... P>
struct find_layout<H, P...>
{
    using type = H;
    static constexpr bool found = true;
};

template <class... P>
struct find_space
{
    using type = typename DefaultExecutionSpace::memory_space;
};
template <class H, class... P>
struct find_space<H, P...> : find_space<P...>
{
};
template <MemSpace H, class... P>
struct find_space<H, P...>
{
    using type = H;
};
template <ExecSpace H, class... P>
struct find_space<H, P...>
{
    using type = typename H::memory_space;
};
template <class E, class M, class... P>
struct find_space<Device<E, M>, P...>
{
    using type = M;
};

template <class... P>
struct find_traits
{
    using type = MemoryTraits<0>;
};
template <class H, class... P>
struct find_traits<H, P...> : find_traits<P...>
{
};
template <MemTraits H, class... P>
struct find_traits<H, P...>
{
    using type = H;
};

template <class S>
struct host_mirror_of
{
    using type = HostSpace;
};
template <>
struct host_mirror_of<SharedHostPinnedSpace>
{
    using type = SharedHostPinnedSpace;
};
template <>
struct host_mirror_of<SharedSpace>
{
    using type = SharedSpace;
};

struct Alloc
{
    std::string label;
    std::unique_ptr<unsigned char[]> bytes;

    Alloc() noexcept
    {
        auto& s = ::kstub::st();
        ::kstub::lifecycle("allocation");
        ++s.live;
        s.peak = s.live > s.peak ? s.live : s.peak;
    }
    Alloc(Alloc const&) = delete;
    Alloc& operator=(Alloc const&) = delete;
    ~Alloc() noexcept
    {
        ::kstub::lifecycle("deallocation");
        --::kstub::st().live;
    }
};

[[gnu::cold, gnu::noinline]] inline void oob(char const* what, std::string const& label)
{
    ::kstub::fault(std::string(what) + ": view '" + label + "'");
}

template <class T>
T& dummy()
{
    static thread_local std::remove_const_t<T> d;
    d = std::remove_const_t<T>();
    return d;
}

} // namespace kstub_detail

template <class DataType, class... Props>
struct ViewTraits
{
    using value_type = typename kstub_detail::data_type_info<DataType>::value_type;
    using non_const_value_type = std::remove_const_t<value_type>;
    using const_value_type = std::add_const_t<value_type>;
    using data_type = DataType;
    using non_const_data_type = typename kstub_detail::data_type_info<DataType>::template rebind<non_const_value_type>;
    using const_data_type = typename kstub_detail::data_type_info<DataType>::template rebind<const_value_type>;
    using array_layout = typename kstub_detail::find_layout<Props...>::type;
    using memory_space = typename kstub_detail::find_space<Props...>::type;
    using execution_space = typename memory_space::execution_space;
    using memory_traits = typename kstub_detail::find_traits<Props...>::type;
    using host_mirror_space = typename kstub_detail::host_mirror_of<memory_space>::type;
    struct dimension
    {
        static constexpr unsigned rank = kstub_detail::data_type_info<DataType>::rank;
        static constexpr unsigned rank_dynamic = rank;
    };
};

template <class DataType, class... Props>
class View;

template <class T>
struct is_view : std::false_type
{
};
template <class D, class... P>
struct is_view<View<D, P...>> : std::true_type
{
};
template <class D, class... P>
struct is_view<View<D, P...> const> : std::true_type
{
};
template <class T>
inline constexpr bool is_view_v = is_view<T>::value;

template <class T>
struct is_memory_space : std::bool_constant<kstub_detail::MemSpace<T>>
{
};
template <class T>
struct is_execution_space : std::bool_constant<kstub_detail::ExecSpace<T>>
{
};
template <class T>
inline constexpr bool is_memory_space_v = is_memory_space<T>::value;
template <class T>
inline constexpr bool is_execution_space_v = is_execution_space<T>::value;

template <class From, class To>
struct SpaceAccessibility
{
    static constexpr bool accessible = true;
};

namespace kstub_detail {
struct view_ctor_props
{
    std::string label;
    bool init = true;
};
inline void collect(view_ctor_props& p, std::string const& s) { p.label = s; }
inline void collect(view_ctor_props& p, char const* s) { p.label = s; }
inline void collect(view_ctor_props& p, WithoutInitializing_t) { p.init = false; }
template <class T>
inline void collect(view_ctor_props&, T const&)
{
}
} // namespace kstub_detail

template <class... Args>
auto view_alloc(Args const&... args) -> kstub_detail::view_ctor_props
{
    kstub_detail::view_ctor_props p;
    (kstub_detail::collect(p, args), ...);
    return p;
}

template <class DataType, class... Props>
class View
{
    template <class D, class... P>
    friend class View;

public:
    using traits = ViewTraits<DataType, Props...>;
    using data_type = typename traits::data_type;
    using value_type = typename traits::value_type;
    using const_value_type = typename traits::const_value_type;
    using non_const_value_type = typename traits::non_const_value_type;
    using const_data_type = typename traits::const_data_type;
    using non_const_data_type = typename traits::non_const_data_type;
    using array_layout = typename traits::array_layout;
    using memory_space = typename traits::memory_space;
    using execution_space = typename traits::execution_space;
    using device_type = Device<execution_space, memory_space>;
    using memory_traits = typename traits::memory_traits;
    using host_mirror_space = typename traits::host_mirror_space;
    using size_type = std::size_t;
    using pointer_type = value_type*;
    using reference_type = value_type&;
    using HostMirror = View<non_const_data_type, array_layout, host_mirror_space>;
    using host_mirror_type = HostMirror;
    using const_type = View<const_data_type, array_layout, memory_space, memory_traits>;
    using non_const_type = View<non_const_data_type, array_layout, memory_space, memory_traits>;

    static constexpr std::integral_constant<std::size_t, kstub_detail::data_type_info<DataType>::rank> rank {};
    static constexpr std::size_t rank_dynamic = rank;
    static constexpr std::size_t Rank = rank;

private:
    std::shared_ptr<kstub_detail::Alloc> m_alloc;
    value_type* m_ptr = nullptr;
    std::array<std::size_t, rank == 0 ? 1 : rank> m_ext {};
    std::array<std::size_t, rank == 0 ? 1 : rank> m_str {};

    void set_strides()
    {
        if constexpr (rank > 0) {
            if constexpr (std::is_same_v<array_layout, LayoutLeft>) {
                std::size_t s = 1;
                for (std::size_t r = 0; r < rank; ++r) {
                    m_str[r] = s;
                    s *= m_ext[r];
                }
            } else {
                std::size_t s = 1;
                for (std::size_t r = rank; r-- > 0;) {
                    m_str[r] = s;
                    s *= m_ext[r];
                }
            }
        }
    }

    void allocate(std::string const& label, bool init)
    {
        set_strides();
        std::size_t const n = size();
        m_alloc = std::make_shared<kstub_detail::Alloc>();
        m_alloc->label = label;
        using NC = non_const_value_type;
        m_alloc->bytes.reset(new unsigned char[(n * sizeof(NC)) + 1]);
        NC* const p = reinterpret_cast<NC*>(m_alloc->bytes.get());
        for (std::size_t i = 0; i < n; ++i) {
            if constexpr (std::is_floating_point_v<NC>) {
                new (p + i) NC(init ? NC(0) : std::numeric_limits<NC>::quiet_NaN());
            } else if constexpr (std::is_arithmetic_v<NC>) {
                new (p + i) NC(init ? NC(0) : static_cast<NC>(0x5a));
            } else {
                new (p + i) NC();
            }
        }
        m_ptr = p;
    }

    template <class I0, class... I>
    void set_ext(I0 i0, I... i)
    {
        std::size_t const a[] = {static_cast<std::size_t>(i0), static_cast<std::size_t>(i)...};
        for (std::size_t r = 0; r < rank; ++r) {
            m_ext[r] = a[r];
        }
    }
    void set_ext() {}

    bool space_ok() const noexcept
    {
        if constexpr (std::is_same_v<memory_space, HostSpace>) {
            return ::kstub::in_kernel == 0;
        } else if constexpr (std::is_same_v<memory_space, kstub_detail::DeviceSpace>) {
            return ::kstub::in_kernel != 0;
        } else {
            return true;
        }
    }

    [[gnu::cold, gnu::noinline]] void bad_space() const
    {
        if (::kstub::st().strict_spaces) {
            kstub_detail::oob(
                    std::is_same_v<memory_space, HostSpace> ? "kernel access to host-only memory" : "host access to device memory", label());
        }
    }

    [[gnu::cold, gnu::noinline]] value_type& bad_index() const
    {
        kstub_detail::oob(m_ptr == nullptr ? "access to an unallocated view" : "out of bounds access", label());
        return kstub_detail::dummy<value_type>();
    }

    template <std::size_t... R, class... I>
    value_type& at(std::index_sequence<R...>, I... idx) const
    {
        if (!space_ok()) [[unlikely]] {
            bad_space();
        }
        if (m_ptr == nullptr || !((static_cast<std::size_t>(idx) < m_ext[R]) && ...)) [[unlikely]] {
            return bad_index();
        }
        return m_ptr[(std::size_t(0) + ... + (static_cast<std::size_t>(idx) * m_str[R]))];
    }

public:
    View() = default;
    View(View const&) = default;
    View(View&&) noexcept = default;
    View& operator=(View const&) = default;
    View& operator=(View&&) noexcept = default;
    ~View() = default;

    template <class... I>
        requires(sizeof...(I) == rank && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(std::string const& label, I... i)
    {
        set_ext(i...);
        allocate(label, true);
    }

    View(std::string const& label, array_layout const& l)
    {
        for (std::size_t r = 0; r < rank; ++r) {
            m_ext[r] = l.dimension[r];
        }
        allocate(label, true);
    }

    template <class... I>
        requires(sizeof...(I) == rank && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(kstub_detail::view_ctor_props const& p, I... i)
    {
        set_ext(i...);
        allocate(p.label, p.init);
    }

    View(kstub_detail::view_ctor_props const& p, array_layout const& l)
    {
        for (std::size_t r = 0; r < rank; ++r) {
            m_ext[r] = l.dimension[r];
        }
        allocate(p.label, p.init);
    }

    template <class... I>
        requires(sizeof...(I) == rank && (std::is_convertible_v<I, std::size_t> && ...))
    explicit View(value_type* ptr, I... i)
    {
        set_ext(i...);
        set_strides();
        m_ptr = ptr;
    }

    template <class D2, class... P2>
        requires(std::is_same_v<typename View<D2, P2...>::non_const_value_type, non_const_value_type>
                 && (std::is_const_v<value_type> || !std::is_const_v<typename View<D2, P2...>::value_type>) && View<D2, P2...>::rank == rank
                 && std::is_same_v<typename View<D2, P2...>::memory_space, memory_space>)
    View(View<D2, P2...> const& o) : m_alloc(o.m_alloc), m_ptr(o.m_ptr), m_ext(o.m_ext), m_str(o.m_str)
    {
    }

    // harness/deep_copy/subview access
    void kstub_assign(std::shared_ptr<kstub_detail::Alloc> a, value_type* p) { m_alloc = std::move(a); m_ptr = p; }
    void kstub_dim(std::size_t r, std::size_t e, std::size_t s) { m_ext[r] = e; m_str[r] = s; }
    auto const& kstub_alloc() const { return m_alloc; }
    value_type* kstub_ptr(std::size_t const* idx) const
    {
        std::size_t o = 0;
        for (std::size_t r = 0; r < rank; ++r) {
            o += idx[r] * m_str[r];
        }
        return m_ptr + o;
    }

    template <class... I>
        requires(sizeof...(I) == rank)
    value_type& operator()(I... i) const
    {
        return at(std::make_index_sequence<rank> {}, i...);
    }
    template <class I>
        requires(rank == 1)
    value_type& operator[](I i) const
    {
        return at(std::make_index_sequence<1> {}, i);
    }
    template <class... I>
        requires(sizeof...(I) == rank)
    value_type& access(I... i) const
    {
        return at(std::make_index_sequence<rank> {}, i...);
    }

    bool is_allocated() const noexcept { return m_ptr != nullptr; }
    value_type* data() const noexcept { return m_ptr; }
    std::string label() const { return m_alloc ? m_alloc->label : std::string(); }
    int use_count() const { return static_cast<int>(m_alloc.use_count()); }
    template <class I>
    std::size_t extent(I const& r) const noexcept
    {
        return static_cast<std::size_t>(r) < rank ? m_ext[static_cast<std::size_t>(r)] : 1;
    }
    template <class I>
    int extent_int(I const& r) const noexcept
    {
        return static_cast<int>(extent(r));
    }
    template <class I>
    std::size_t stride(I const& r) const noexcept
    {
        return static_cast<std::size_t>(r) < rank ? m_str[static_cast<std::size_t>(r)] : 0;
    }
    std::size_t size() const noexcept
    {
        std::size_t n = 1;
        for (std::size_t r = 0; r < rank; ++r) {
            n *= m_ext[r];
        }
        return n;
    }
    std::size_t span() const noexcept
    {
        if (size() == 0) {
            return 0;
        }
        std::size_t n = 1;
        for (std::size_t r = 0; r < rank; ++r) {
            n += (m_ext[r] - 1) * m_str[r];
        }
        return n;
    }
    bool span_is_contiguous() const noexcept { return span() == size(); }
    array_layout layout() const
    {
        array_layout l;
        for (std::size_t r = 0; r < rank; ++r) {
            l.dimension[r] = m_ext[r];
        }
        return l;
    }

    template <class D2, class... P2>
    friend bool operator==(View const& a, View<D2, P2...> const& b)
    {
        if (View<D2, P2...>::rank != rank || static_cast<void const*>(a.data()) != static_cast<void const*>(b.data())) {
            return false;
        }
        for (std::size_t r = 0; r < rank; ++r) {
            if (a.extent(r) != b.extent(r) || a.stride(r) != b.stride(r)) {
                return false;
            }
        }
        return true;
    }
};

namespace kstub_detail {

template <class I>
inline constexpr bool is_int_index = std::is_integral_v<std::decay_t<I>> || std::is_enum_v<std::decay_t<I>>;

template <class V, class... S>
struct subview_type
{
    static constexpr std::size_t kept = (std::size_t(0) + ... + (is_int_index<S> ? 0 : 1));
    using type = View<
            typename add_ptrs<typename V::value_type, kept>::type,
            typename V::array_layout,
            typename V::memory_space,
            typename V::memory_traits>;
};

struct slice
{
    bool single;
    std::size_t begin;
    std::size_t end;
};

template <class V, class S>
slice make_slice(V const& v, std::size_t r, S const& s)
{
    if constexpr (is_int_index<S>) {
        auto const b = static_cast<std::size_t>(s);
        return {true, b, b + 1};
    } else if constexpr (std::is_same_v<S, AllType>) {
        return {false, 0, v.extent(r)};
    } else {
        return {false, static_cast<std::size_t>(s.first), static_cast<std::size_t>(s.second)};
    }
}

} // namespace kstub_detail

template <class V, class... S>
using Subview = typename kstub_detail::subview_type<V, S...>::type;

template <class D, class... P, class... S>
    requires(View<D, P...>::rank == sizeof...(S))
auto subview(View<D, P...> const& v, S const&... s)
{
    using V = View<D, P...>;
    using R = typename kstub_detail::subview_type<V, S...>::type;
    R res;
    if constexpr (V::rank == 0) {
        res = v;
    } else {
        std::size_t r = 0;
        kstub_detail::slice const sl[] = {kstub_detail::make_slice(v, r++, s)...};
        std::size_t out = 0;
        std::size_t off = 0;
        for (std::size_t d = 0; d < V::rank; ++d) {
            auto [single, b, e] = sl[d];
            bool const bad = e > v.extent(d) || b > e || (single && b >= v.extent(d));
            if (bad) {
                kstub_detail::oob("subview bounds", v.label());
                b = 0;
                e = single ? 1 : 0;
            }
            off += b * v.stride(d);
            if (!single) {
                res.kstub_dim(out++, e - b, v.stride(d));
            }
        }
        res.kstub_assign(v.kstub_alloc(), v.data() == nullptr ? nullptr : v.data() + off);
    }
    return res;
}

// ---------------------------------------------------------------- deep_copy & mirrors

namespace kstub_detail {
template <std::size_t N, class F>
void for_each_index(std::size_t const* ext, F&& f)
{
    std::size_t idx[N == 0 ? 1 : N] = {};
    for (std::size_t r = 0; r < N; ++r) {
        if (ext[r] == 0) {
            return;
        }
    }
    for (;;) {
        f(idx);
        std::size_t r = 0;
        for (; r < N; ++r) {
            if (++idx[r] < ext[r]) {
                break;
            }
            idx[r] = 0;
        }
        if (r == N) {
            return;
        }
    }
}
template <class V>
auto extents_of(V const& v)
{
    std::array<std::size_t, V::rank == 0 ? 1 : V::rank> e {};
    for (std::size_t r = 0; r < V::rank; ++r) {
        e[r] = v.extent(r);
    }
    return e;
}
} // namespace kstub_detail

template <class D1, class... P1, class D2, class... P2>
void deep_copy(View<D1, P1...> const& dst, View<D2, P2...> const& src)
{
    using V1 = View<D1, P1...>;
    using V2 = View<D2, P2...>;
    static_assert(V1::rank == V2::rank);
    static_assert(!std::is_const_v<typename V1::value_type>);
    ::kstub::on_kernel();
    if (dst.data() == nullptr && src.data() == nullptr) {
        return;
    }
    for (std::size_t r = 0; r < V1::rank; ++r) {
        if (dst.extent(r) != src.extent(r)) {
            throw std::runtime_error("Kokkos::deep_copy extents of views don't match: " + dst.label() + " and " + src.label());
        }
    }
    auto const e = kstub_detail::extents_of(dst);
    kstub_detail::for_each_index<V1::rank>(e.data(), [&](std::size_t const* i) { *dst.kstub_ptr(i) = *src.kstub_ptr(i); });
}

template <class D1, class... P1>
void deep_copy(View<D1, P1...> const& dst, typename View<D1, P1...>::const_value_type& value)
{
    static_assert(!std::is_const_v<typename View<D1, P1...>::value_type>);
    ::kstub::on_kernel();
    if (dst.data() == nullptr) {
        return;
    }
    auto const e = kstub_detail::extents_of(dst);
    kstub_detail::for_each_index<View<D1, P1...>::rank>(e.data(), [&](std::size_t const* i) { *dst.kstub_ptr(i) = value; });
}

template <class T, class D2, class... P2>
    requires(std::is_arithmetic_v<T> && View<D2, P2...>::rank == 0)
void deep_copy(T& dst, View<D2, P2...> const& src)
{
    dst = *src.data();
}

template <class E, class A, class B>
    requires(kstub_detail::ExecSpace<E>)
void deep_copy(E const&, A&& a, B&& b)
{
    deep_copy(std::forward<A>(a), std::forward<B>(b));
}

template <class D, class... P>
auto create_mirror(View<D, P...> const& v) -> typename View<D, P...>::HostMirror
{
    return typename View<D, P...>::HostMirror(v.label(), v.layout());
}

template <class D, class... P>
auto create_mirror_view(View<D, P...> const& v) -> typename View<D, P...>::HostMirror
{
    using V = View<D, P...>;
    if constexpr (std::is_same_v<typename V::memory_space, typename V::HostMirror::memory_space>) {
        if constexpr (!std::is_const_v<typename V::value_type>) {
            return v;
        } else {
            return create_mirror(v);
        }
    } else {
        return create_mirror(v);
    }
}

template <class S, class D, class... P>
    requires(kstub_detail::MemSpace<S> || kstub_detail::ExecSpace<S>)
auto create_mirror_view_and_copy(S const&, View<D, P...> const& v)
{
    using V = View<D, P...>;
    using M = View<typename V::non_const_data_type, typename V::array_layout, typename S::memory_space>;
    if constexpr (std::is_same_v<typename V::memory_space, typename S::memory_space> && !std::is_const_v<typename V::value_type>) {
        return M(v);
    } else {
        M m(v.label(), v.layout());
        deep_copy(m, v);
        return m;
    }
}

template <class S, class D, class... P>
    requires(kstub_detail::MemSpace<S> || kstub_detail::ExecSpace<S>)
auto create_mirror_view(S const&, View<D, P...> const& v)
{
    using V = View<D, P...>;
    using M = View<typename V::non_const_data_type, typename V::array_layout, typename S::memory_space>;
    if constexpr (std::is_same_v<typename V::memory_space, typename S::memory_space> && !std::is_const_v<typename V::value_type>) {
        return M(v);
    } else {
        return M(v.label(), v.layout());
    }
}

template <class D, class... P, class... I>
void resize(View<D, P...>& v, I... i)
{
    View<D, P...> n(v.label(), i...);
    auto e = kstub_detail::extents_of(n);
    for (std::size_t r = 0; r < View<D, P...>::rank; ++r) {
        e[r] = std::min(e[r], v.extent(r));
    }
    kstub_detail::for_each_index<View<D, P...>::rank>(e.data(), [&](std::size_t const* k) { *n.kstub_ptr(k) = *v.kstub_ptr(k); });
    v = n;
}
template <class D, class... P, class... I>
void realloc(View<D, P...>& v, I... i)
{
    v = View<D, P...>(v.label(), i...);
}

// ---------------------------------------------------------------- policies

template <class T>
struct IndexType
{
    using index_type = T;
};
enum class Iterate { Default, Left, Right };
template <unsigned N, Iterate Outer = Iterate::Default, Iterate Inner = Iterate::Default>
struct Rank
{
    static constexpr unsigned n = N;
};
template <class T>
struct Schedule
{
};
struct Static
{
};
struct Dynamic
{
};

namespace kstub_detail {
template <class... P>
struct find_rank
{
    static constexpr unsigned n = 0;
};
template <class H, class... P>
struct find_rank<H, P...> : find_rank<P...>
{
};
template <unsigned N, Iterate O, Iterate I, class... P>
struct find_rank<Rank<N, O, I>, P...>
{
    static constexpr unsigned n = N;
};
template <class... P>
struct find_index
{
    using type = std::int64_t;
};
template <class H, class... P>
struct find_index<H, P...> : find_index<P...>
{
};
template <class T, class... P>
struct find_index<IndexType<T>, P...>
{
    using type = T;
};
template <class... P>
struct find_exec
{
    using type = DefaultExecutionSpace;
};
template <class H, class... P>
struct find_exec<H, P...> : find_exec<P...>
{
};
template <ExecSpace H, class... P>
struct find_exec<H, P...>
{
    using type = H;
};
} // namespace kstub_detail

template <class... P>
struct RangePolicy
{
    using is_policy_tag = void;
    using index_type = typename kstub_detail::find_index<P...>::type;
    using member_type = index_type;
    using execution_space = typename kstub_detail::find_exec<P...>::type;
    static constexpr unsigned rank = 1;
    index_type lower[1] = {0};
    index_type upper[1] = {0};
    RangePolicy() = default;
    template <class A, class B>
        requires(std::is_convertible_v<A, index_type> && std::is_convertible_v<B, index_type>)
    RangePolicy(A b, B e) : lower {static_cast<index_type>(b)}, upper {static_cast<index_type>(e)}
    {
    }
    template <class E, class A, class B>
        requires(kstub_detail::ExecSpace<E>)
    RangePolicy(E const&, A b, B e) : lower {static_cast<index_type>(b)}, upper {static_cast<index_type>(e)}
    {
    }
    index_type begin() const { return lower[0]; }
    index_type end() const { return upper[0]; }
};
template <class A, class B>
    requires(std::is_integral_v<A> && std::is_integral_v<B>)
RangePolicy(A, B) -> RangePolicy<>;

// One team per iteration, one thread per team: the nested ranges are loops in the order of the run.
struct AutoTag
{
};
inline constexpr AutoTag AUTO {};
inline AutoTag AUTO_() { return {}; }

namespace kstub_detail {
struct TeamMember
{
    int rank_ = 0;
    int size_ = 1;
    int league_rank() const { return rank_; }
    int league_size() const { return size_; }
    int team_rank() const { return 0; }
    int team_size() const { return 1; }
    void team_barrier() const {}
    template <class T>
    void team_broadcast(T&, int) const
    {
    }
};
struct NestedRange
{
    using is_nested_tag = void;
    std::int64_t lower;
    std::int64_t upper;
};
template <class T>
concept Nested = requires { typename T::is_nested_tag; };
struct SingleTag
{
};
} // namespace kstub_detail

template <class... P>
struct TeamPolicy
{
    using is_policy_tag = void;
    using index_type = int;
    using member_type = kstub_detail::TeamMember;
    using execution_space = typename kstub_detail::find_exec<P...>::type;
    static constexpr unsigned rank = 1;
    int lower[1] = {0};
    int upper[1] = {0};
    TeamPolicy() = default;
    template <class T, class V = int>
    explicit TeamPolicy(int league, T const&, V const& = {}) : upper {league}
    {
    }
    TeamPolicy& set_scratch_size(int, ...) { return *this; }
    member_type make_arg(int i) const { return {i, upper[0]}; }
};

inline kstub_detail::NestedRange TeamThreadRange(kstub_detail::TeamMember const&, std::int64_t n) { return {0, n}; }
inline kstub_detail::NestedRange TeamThreadRange(kstub_detail::TeamMember const&, std::int64_t b, std::int64_t e) { return {b, e}; }
inline kstub_detail::NestedRange TeamVectorRange(kstub_detail::TeamMember const&, std::int64_t n) { return {0, n}; }
inline kstub_detail::NestedRange TeamVectorRange(kstub_detail::TeamMember const&, std::int64_t b, std::int64_t e) { return {b, e}; }
inline kstub_detail::NestedRange ThreadVectorRange(kstub_detail::TeamMember const&, std::int64_t n) { return {0, n}; }
inline kstub_detail::NestedRange ThreadVectorRange(kstub_detail::TeamMember const&, std::int64_t b, std::int64_t e) { return {b, e}; }
inline kstub_detail::SingleTag PerTeam(kstub_detail::TeamMember const&) { return {}; }
inline kstub_detail::SingleTag PerThread(kstub_detail::TeamMember const&) { return {}; }
template <class F>
void single(kstub_detail::SingleTag, F const& f)
{
    f();
}
template <class F, class T>
void single(kstub_detail::SingleTag, F const& f, T& v)
{
    f(v);
}

template <class... P>
struct MDRangePolicy
{
    using is_policy_tag = void;
    using index_type = typename kstub_detail::find_index<P...>::type;
    using execution_space = typename kstub_detail::find_exec<P...>::type;
    static constexpr unsigned rank = kstub_detail::find_rank<P...>::n;
    static_assert(rank > 0);
    using point_type = Array<std::int64_t, rank>;
    using tile_type = Array<std::int64_t, rank>;
    std::int64_t lower[rank] = {};
    std::int64_t upper[rank] = {};
    MDRangePolicy() = default;
    template <class A, std::size_t NA, class B, std::size_t NB>
    MDRangePolicy(Array<A, NA> const& b, Array<B, NB> const& e)
    {
        static_assert(NA == rank && NB == rank);
        for (unsigned i = 0; i < rank; ++i) {
            lower[i] = static_cast<std::int64_t>(b[i]);
            upper[i] = static_cast<std::int64_t>(e[i]);
        }
    }
    template <class A, std::size_t NA, class B, std::size_t NB, class C, std::size_t NC>
    MDRangePolicy(Array<A, NA> const& b, Array<B, NB> const& e, Array<C, NC> const&) : MDRangePolicy(b, e)
    {
    }
    template <class A, class B>
    MDRangePolicy(A const (&b)[rank], B const (&e)[rank])
    {
        for (unsigned i = 0; i < rank; ++i) {
            lower[i] = static_cast<std::int64_t>(b[i]);
            upper[i] = static_cast<std::int64_t>(e[i]);
        }
    }
    template <class E, class A, class B>
        requires(kstub_detail::ExecSpace<E>)
    MDRangePolicy(E const&, A const& b, B const& e) : MDRangePolicy(b, e)
    {
    }
};

namespace kstub_detail {

template <class T>
concept Policy = requires { typename T::is_policy_tag; };

// A bijection of [0, n): forward, reverse or "shuffled" (affine).
struct Perm
{
    int mode;
    std::size_t n;
    std::size_t a = 1;
    std::size_t b = 0;
    Perm(std::size_t n_) : mode(::kstub::st().order), n(n_)
    {
        if (mode == 2 && n > 2) {
            std::uint64_t h = (::kstub::st().order_seed + 0x9e3779b97f4a7c15ULL) * (2 * n + 1);
            h ^= h >> 29;
            h *= 0xbf58476d1ce4e5b9ULL;
            h ^= h >> 32;
            b = h % n;
            a = (h >> 20) % n;
            while (a < 2 || std::gcd(a, n) != 1) {
                a = a + 1;
                if (a >= n) {
                    a = 1;
                    break;
                }
            }
        }
    }
    std::size_t operator()(std::size_t p) const
    {
        switch (mode) {
        case 1:
            return n - 1 - p;
        case 2:
            return static_cast<std::size_t>((static_cast<unsigned __int128>(a) * p + b) % n);
        default:
            return p;
        }
    }
};

template <class P>
std::size_t policy_size(P const& p)
{
    std::size_t n = 1;
    for (unsigned r = 0; r < P::rank; ++r) {
        n *= p.upper[r] > p.lower[r] ? static_cast<std::size_t>(p.upper[r] - p.lower[r]) : 0;
    }
    return n;
}

template <class P, class F, class... Acc>
void invoke_at(P const& p, std::size_t lin, F const& f, Acc&... acc)
{
    if constexpr (requires { p.make_arg(0); }) {
        f(p.make_arg(static_cast<int>(lin)), acc...);
        return;
    } else {
    using I = typename P::index_type;
    I idx[P::rank];
    for (unsigned r = 0; r < P::rank; ++r) {
        auto const e = static_cast<std::size_t>(p.upper[r] - p.lower[r]);
        idx[r] = static_cast<I>(p.lower[r] + static_cast<std::int64_t>(lin % e));
        lin /= e;
    }
    [&]<std::size_t... R>(std::index_sequence<R...>) { f(idx[R]..., acc...); }(std::make_index_sequence<P::rank> {});
    }
}

} // namespace kstub_detail

// ---------------------------------------------------------------- parallel_for

template <class P, class F>
    requires(kstub_detail::Policy<P>)
void parallel_for(std::string const& /*label*/, P const& policy, F const& f)
{
    ::kstub::on_kernel();
    std::size_t const n = kstub_detail::policy_size(policy);
    kstub_detail::Perm const perm(n);
    ::kstub::KernelScope const ks;
    for (std::size_t i = 0; i < n; ++i) {
        kstub_detail::invoke_at(policy, perm(i), f);
    }
}
template <class P, class F>
    requires(kstub_detail::Policy<P>)
void parallel_for(P const& policy, F const& f)
{
    parallel_for(std::string(), policy, f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_for(std::string const& label, I n, F const& f)
{
    parallel_for(label, RangePolicy<>(0, n), f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_for(I n, F const& f)
{
    parallel_for(std::string(), RangePolicy<>(0, n), f);
}

// ---------------------------------------------------------------- reducers

namespace kstub_detail {
template <class Scalar>
struct reducer_result
{
    std::shared_ptr<void> keep;
    Scalar* ptr;
    explicit reducer_result(Scalar& s) : ptr(&s) {}
    template <class D, class... P>
    explicit reducer_result(View<D, P...> const& v) : keep(v.kstub_alloc()), ptr(v.data())
    {
    }
};
} // namespace kstub_detail

#define KSTUB_REDUCER(NAME, IDENTITY, JOIN)                                                                                                          \
    template <class Scalar, class Space = HostSpace>                                                                                                 \
    struct NAME                                                                                                                                      \
    {                                                                                                                                                \
        using is_reducer_tag = void;                                                                                                                 \
        using reducer = NAME;                                                                                                                        \
        using value_type = std::remove_cv_t<Scalar>;                                                                                                 \
        kstub_detail::reducer_result<value_type> result;                                                                                             \
        NAME(value_type& v) : result(v) {}                                                                                                           \
        template <class D, class... P>                                                                                                               \
        NAME(View<D, P...> const& v) : result(v)                                                                                                     \
        {                                                                                                                                            \
            static_assert(View<D, P...>::rank == 0);                                                                                                 \
        }                                                                                                                                            \
        void init(value_type& v) const { v = IDENTITY; }                                                                                             \
        void join(value_type& dest, value_type const& src) const { JOIN; }                                                                           \
        value_type& reference() const { return *result.ptr; }                                                                                        \
    };                                                                                                                                               \
    template <class D, class... P>                                                                                                                   \
    NAME(View<D, P...> const&) -> NAME<typename View<D, P...>::value_type, typename View<D, P...>::memory_space>;                                    \
    template <class T>                                                                                                                               \
        requires(std::is_arithmetic_v<T>)                                                                                                            \
    NAME(T&) -> NAME<T>;

KSTUB_REDUCER(Sum, value_type(0), dest += src)
KSTUB_REDUCER(Prod, value_type(1), dest *= src)
KSTUB_REDUCER(
        Min,
        (std::numeric_limits<value_type>::has_infinity ? std::numeric_limits<value_type>::infinity() : std::numeric_limits<value_type>::max()),
        if (src < dest) dest = src)
KSTUB_REDUCER(
        Max,
        (std::numeric_limits<value_type>::has_infinity ? -std::numeric_limits<value_type>::infinity() : std::numeric_limits<value_type>::lowest()),
        if (src > dest) dest = src)
KSTUB_REDUCER(LAnd, value_type(1), dest = dest && src)
KSTUB_REDUCER(LOr, value_type(0), dest = dest || src)
KSTUB_REDUCER(BAnd, static_cast<value_type>(~value_type(0)), dest = dest& src)
KSTUB_REDUCER(BOr, value_type(0), dest = dest | src)
#undef KSTUB_REDUCER

template <class Scalar>
struct MinMaxScalar
{
    Scalar min_val, max_val;
};
template <class Scalar, class Space = HostSpace>
struct MinMax
{
    using is_reducer_tag = void;
    using value_type = MinMaxScalar<Scalar>;
    value_type* ptr;
    MinMax(value_type& v) : ptr(&v) {}
    void init(value_type& v) const { v = {std::numeric_limits<Scalar>::max(), std::numeric_limits<Scalar>::lowest()}; }
    void join(value_type& d, value_type const& s) const
    {
        if (s.min_val < d.min_val) d.min_val = s.min_val;
        if (s.max_val > d.max_val) d.max_val = s.max_val;
    }
    value_type& reference() const { return *ptr; }
};

namespace kstub_detail {
template <class T>
concept Reducer = requires { typename T::is_reducer_tag; };

template <class R>
auto as_reducer(R&& r)
{
    using D = std::decay_t<R>;
    if constexpr (Reducer<D>) {
        return r;
    } else if constexpr (is_view_v<D>) {
        return Sum<typename D::value_type, typename D::memory_space>(r);
    } else {
        static_assert(std::is_arithmetic_v<D> && std::is_lvalue_reference_v<R>);
        return Sum<D>(r);
    }
}
} // namespace kstub_detail

template <class P, class F, class... R>
    requires(kstub_detail::Policy<P> && sizeof...(R) >= 1)
void parallel_reduce(std::string const& /*label*/, P const& policy, F const& f, R&&... results)
{
    ::kstub::on_kernel();
    auto reducers = std::make_tuple(kstub_detail::as_reducer(std::forward<R>(results))...);
    auto const seq = std::make_index_sequence<sizeof...(R)> {};
    std::size_t const n = kstub_detail::policy_size(policy);
    kstub_detail::Perm const perm(n);
    std::size_t nchunk = ::kstub::st().reduce_chunks < 1 ? 1 : static_cast<std::size_t>(::kstub::st().reduce_chunks);
    if (nchunk > n) {
        nchunk = n == 0 ? 1 : n;
    }
    [&]<std::size_t... K>(std::index_sequence<K...>) {
        std::tuple<typename std::tuple_element_t<K, decltype(reducers)>::value_type...> total;
        (std::get<K>(reducers).init(std::get<K>(total)), ...);
        ::kstub::KernelScope const ks;
        for (std::size_t c = 0; c < nchunk; ++c) {
            std::size_t const b = n * c / nchunk;
            std::size_t const e = n * (c + 1) / nchunk;
            auto part = total;
            (std::get<K>(reducers).init(std::get<K>(part)), ...);
            for (std::size_t i = b; i < e; ++i) {
                kstub_detail::invoke_at(policy, perm(i), f, std::get<K>(part)...);
            }
            (std::get<K>(reducers).join(std::get<K>(total), std::get<K>(part)), ...);
        }
        ((std::get<K>(reducers).reference() = std::get<K>(total)), ...);
    }(seq);
}
template <class P, class F, class... R>
    requires(kstub_detail::Policy<P> && sizeof...(R) >= 1)
void parallel_reduce(P const& policy, F const& f, R&&... results)
{
    parallel_reduce(std::string(), policy, f, std::forward<R>(results)...);
}
template <class I, class F, class... R>
    requires(std::is_integral_v<I> && sizeof...(R) >= 1)
void parallel_reduce(std::string const& label, I n, F const& f, R&&... results)
{
    parallel_reduce(label, RangePolicy<>(0, n), f, std::forward<R>(results)...);
}
template <class I, class F, class... R>
    requires(std::is_integral_v<I> && sizeof...(R) >= 1)
void parallel_reduce(I n, F const& f, R&&... results)
{
    parallel_reduce(std::string(), RangePolicy<>(0, n), f, std::forward<R>(results)...);
}

// ---------------------------------------------------------------- nested ranges of a team

template <class N, class F>
    requires(kstub_detail::Nested<N>)
void parallel_for(N const& range, F const& f)
{
    std::size_t const n = range.upper > range.lower ? static_cast<std::size_t>(range.upper - range.lower) : 0;
    kstub_detail::Perm const perm(n);
    for (std::size_t i = 0; i < n; ++i) {
        f(static_cast<int>(range.lower + static_cast<std::int64_t>(perm(i))));
    }
}
template <class N, class F, class... R>
    requires(kstub_detail::Nested<N> && sizeof...(R) >= 1)
void parallel_reduce(N const& range, F const& f, R&&... results)
{
    std::size_t const n = range.upper > range.lower ? static_cast<std::size_t>(range.upper - range.lower) : 0;
    kstub_detail::Perm const perm(n);
    auto reducers = std::make_tuple(kstub_detail::as_reducer(std::forward<R>(results))...);
    [&]<std::size_t... K>(std::index_sequence<K...>) {
        std::tuple<typename std::tuple_element_t<K, decltype(reducers)>::value_type...> total;
        (std::get<K>(reducers).init(std::get<K>(total)), ...);
        for (std::size_t i = 0; i < n; ++i) {
            f(static_cast<int>(range.lower + static_cast<std::int64_t>(perm(i))), std::get<K>(total)...);
        }
        ((std::get<K>(reducers).reference() = std::get<K>(total)), ...);
    }(std::make_index_sequence<sizeof...(R)> {});
}

// ---------------------------------------------------------------- scan

namespace kstub_detail {
template <class T>
struct scan_arg;
template <class C, class I, class T, class B>
struct scan_arg<void (C::*)(I, T, B) const>
{
    using type = std::decay_t<T>;
};
template <class F>
struct scan_value
{
    using type = typename scan_arg<decltype(&F::operator())>::type;
};

template <class P, class F, class T>
T scan_impl(P const& policy, F const& f, T)
{
    ::kstub::on_kernel();
    using I = typename P::index_type;
    std::size_t const n = policy_size(policy);
    std::size_t nchunk = ::kstub::st().reduce_chunks < 1 ? 1 : static_cast<std::size_t>(::kstub::st().reduce_chunks);
    if (nchunk > n) {
        nchunk = n == 0 ? 1 : n;
    }
    ::kstub::KernelScope const ks;
    std::vector<T> prefix(nchunk + 1, T());
    auto index = [&](std::size_t i) { return static_cast<I>(policy.lower[0] + static_cast<std::int64_t>(i)); };
    if (nchunk > 1) {
        for (std::size_t c = 0; c < nchunk; ++c) {
            T acc = T();
            for (std::size_t i = n * c / nchunk; i < n * (c + 1) / nchunk; ++i) {
                f(index(i), acc, false);
            }
            prefix[c + 1] = prefix[c] + acc;
        }
    }
    T last = T();
    Perm const perm(nchunk);
    for (std::size_t cc = 0; cc < nchunk; ++cc) {
        std::size_t const c = perm(cc);
        T acc = prefix[c];
        for (std::size_t i = n * c / nchunk; i < n * (c + 1) / nchunk; ++i) {
            f(index(i), acc, true);
        }
        if (c == nchunk - 1) {
            last = acc;
        }
    }
    return last;
}
} // namespace kstub_detail

template <class P, class F>
    requires(kstub_detail::Policy<P>)
void parallel_scan(std::string const& /*label*/, P const& policy, F const& f)
{
    using T = typename kstub_detail::scan_value<F>::type;
    kstub_detail::scan_impl(policy, f, T());
}
template <class P, class F, class T>
    requires(kstub_detail::Policy<P> && std::is_arithmetic_v<T>)
void parallel_scan(std::string const& /*label*/, P const& policy, F const& f, T& result)
{
    result = kstub_detail::scan_impl(policy, f, T());
}
template <class P, class F>
    requires(kstub_detail::Policy<P>)
void parallel_scan(P const& policy, F const& f)
{
    parallel_scan(std::string(), policy, f);
}
template <class I, class F>
    requires(std::is_integral_v<I>)
void parallel_scan(std::string const& label, I n, F const& f)
{
    parallel_scan(label, RangePolicy<>(0, n), f);
}

// ---------------------------------------------------------------- atomics, runtime

template <class T>
constexpr void kokkos_swap(T& a, T& b) noexcept
{
    T t(static_cast<T&&>(a));
    a = static_cast<T&&>(b);
    b = static_cast<T&&>(t);
}

template <class T>
void atomic_add(T* p, std::type_identity_t<T> v) { *p += v; }
template <class T>
void atomic_max(T* p, std::type_identity_t<T> v) { if (*p < v) *p = v; }
template <class T>
void atomic_min(T* p, std::type_identity_t<T> v) { if (v < *p) *p = v; }
template <class T>
T atomic_fetch_add(T* p, std::type_identity_t<T> v) { T o = *p; *p += v; return o; }

struct InitializationSettings
{
};

inline void initialize() { ::kstub::set_phase(::kstub::State::Phase::Up); }
inline void initialize(int&, char**) { initialize(); }
inline void initialize(InitializationSettings const&) { initialize(); }
inline void finalize() { ::kstub::set_phase(::kstub::State::Phase::After); }
inline bool is_initialized() { return ::kstub::st().phase == ::kstub::State::Phase::Any || ::kstub::st().phase == ::kstub::State::Phase::Up; }
inline bool is_finalized() { return ::kstub::st().phase == ::kstub::State::Phase::After; }
inline void fence(std::string const& = "") {}
inline void print_configuration(std::ostream& os, bool = false) { os << "Kokkos stand-in\n"; }

class ScopeGuard
{
public:
    template <class... A>
    explicit ScopeGuard(A&&...)
    {
        initialize();
    }
    ScopeGuard(ScopeGuard const&) = delete;
    ScopeGuard& operator=(ScopeGuard const&) = delete;
    ~ScopeGuard() { finalize(); }
};

namespace Profiling {
inline void pushRegion(std::string const&) {}
inline void popRegion() {}
struct ScopedRegion
{
    explicit ScopedRegion(std::string const&) {}
    ~ScopedRegion() {}
};
} // namespace Profiling

class Timer
{
public:
    double seconds() const { return 0.; }
    void reset() {}
};

} // namespace Kokkos
