#pragma once
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <initializer_list>
#include "kstub_base.hpp"
namespace Kokkos {
using std::abs;
using std::acos;
using std::acosh;
using std::asin;
using std::asinh;
using std::atan;
using std::atan2;
using std::atanh;
using std::cbrt;
using std::ceil;
using std::copysign;
using std::cos;
using std::cosh;
using std::erf;
using std::erfc;
using std::exp;
using std::exp2;
using std::expm1;
using std::fabs;
using std::fdim;
using std::floor;
using std::fma;
using std::fmax;
using std::fmin;
using std::fmod;
using std::hypot;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::log10;
using std::log1p;
using std::log2;
using std::nan;
using std::nearbyint;
using std::nextafter;
using std::pow;
using std::remainder;
using std::round;
using std::signbit;
using std::sin;
using std::sinh;
using std::sqrt;
using std::tan;
using std::tanh;
using std::tgamma;
using std::lgamma;
using std::trunc;

// Same comparison order as Kokkos::min / Kokkos::max / Kokkos::clamp
template <class T>
constexpr auto max(T const& a, T const& b) -> T const& { return (a < b) ? b : a; }
template <class T>
constexpr auto min(T const& a, T const& b) -> T const& { return (b < a) ? b : a; }
template <class T>
constexpr auto max(std::initializer_list<T> l) -> T { return std::max(l); }
template <class T>
constexpr auto min(std::initializer_list<T> l) -> T { return std::min(l); }
template <class T>
constexpr auto clamp(T const& v, T const& lo, T const& hi) -> T const& { return (v < lo) ? lo : (hi < v) ? hi : v; }
template <class T>
constexpr auto rsqrt(T const& v) -> T { return 1 / std::sqrt(v); }
} // namespace Kokkos
