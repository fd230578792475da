#pragma once
#include <utility>
#include "kstub_base.hpp"
namespace Kokkos {
template <class A, class B>
struct pair
{
    using first_type = A;
    using second_type = B;
    A first {};
    B second {};
    constexpr pair() = default;
    constexpr pair(A const& a, B const& b) : first(a), second(b) {}
    template <class U, class V>
    constexpr pair(pair<U, V> const& p) : first(p.first), second(p.second) {}
    template <class U, class V>
    constexpr pair(std::pair<U, V> const& p) : first(p.first), second(p.second) {}
    friend constexpr bool operator==(pair const& x, pair const& y) { return x.first == y.first && x.second == y.second; }
};
template <class A, class B>
pair(A, B) -> pair<A, B>;
template <class A, class B>
constexpr auto make_pair(A a, B b) -> pair<A, B> { return pair<A, B>(a, b); }
} // namespace Kokkos
