#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

#include "kstub_base.hpp"

namespace Kokkos {

template <class T, std::size_t N>
struct Array
{
    T m_data[N];

    using value_type = T;
    using pointer = T*;
    using const_pointer = T const*;
    using reference = T&;
    using const_reference = T const&;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;

    static constexpr auto size() noexcept -> std::size_t { return N; }
    static constexpr auto max_size() noexcept -> std::size_t { return N; }
    static constexpr auto empty() noexcept -> bool { return false; }

    template <class I>
    constexpr auto operator[](I const& i) noexcept -> T&
    {
        if (!std::is_constant_evaluated() && (static_cast<long long>(i) < 0 || static_cast<long long>(i) >= static_cast<long long>(N))) {
            ::kstub::fault("Kokkos::Array index out of bounds");
            return m_data[0];
        }
        return m_data[i];
    }
    template <class I>
    constexpr auto operator[](I const& i) const noexcept -> T const&
    {
        if (!std::is_constant_evaluated() && (static_cast<long long>(i) < 0 || static_cast<long long>(i) >= static_cast<long long>(N))) {
            ::kstub::fault("Kokkos::Array index out of bounds");
            return m_data[0];
        }
        return m_data[i];
    }
    constexpr auto data() noexcept -> T* { return &m_data[0]; }
    constexpr auto data() const noexcept -> T const* { return &m_data[0]; }

    friend constexpr bool operator==(Array const& a, Array const& b)
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (!(a.m_data[i] == b.m_data[i])) {
                return false;
            }
        }
        return true;
    }
    friend constexpr bool operator!=(Array const& a, Array const& b) { return !(a == b); }
};

template <class T>
struct Array<T, 0>
{
    using value_type = T;
    static constexpr auto size() noexcept -> std::size_t { return 0; }
    static constexpr auto empty() noexcept -> bool { return true; }
    auto data() noexcept -> T* { return nullptr; }
    auto data() const noexcept -> T const* { return nullptr; }
};

template <class T, class... Us>
Array(T, Us...) -> Array<T, 1 + sizeof...(Us)>;

template <class T, std::size_t N>
constexpr auto begin(Array<T, N>& a) noexcept -> T* { return a.data(); }
template <class T, std::size_t N>
constexpr auto begin(Array<T, N> const& a) noexcept -> T const* { return a.data(); }
template <class T, std::size_t N>
constexpr auto end(Array<T, N>& a) noexcept -> T* { return a.data() + N; }
template <class T, std::size_t N>
constexpr auto end(Array<T, N> const& a) noexcept -> T const* { return a.data() + N; }

template <std::size_t I, class T, std::size_t N>
constexpr auto get(Array<T, N>& a) noexcept -> T& { return a.m_data[I]; }
template <std::size_t I, class T, std::size_t N>
constexpr auto get(Array<T, N> const& a) noexcept -> T const& { return a.m_data[I]; }
template <std::size_t I, class T, std::size_t N>
constexpr auto get(Array<T, N>&& a) noexcept -> T&& { return std::move(a.m_data[I]); }

template <class T, std::size_t N>
constexpr auto to_array(T const (&a)[N]) -> Array<T, N>
{
    Array<T, N> r {};
    for (std::size_t i = 0; i < N; ++i) {
        r.m_data[i] = a[i];
    }
    return r;
}

} // namespace Kokkos

template <class T, std::size_t N>
struct std::tuple_size<Kokkos::Array<T, N>> : std::integral_constant<std::size_t, N>
{
};
template <std::size_t I, class T, std::size_t N>
struct std::tuple_element<I, Kokkos::Array<T, N>>
{
    using type = T;
};
