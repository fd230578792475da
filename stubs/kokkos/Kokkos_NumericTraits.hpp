#pragma once
#include <limits>
#include "kstub_base.hpp"
namespace Kokkos::Experimental {
template <class T> struct epsilon { static constexpr T value = std::numeric_limits<T>::epsilon(); };
template <class T> struct infinity { static constexpr T value = std::numeric_limits<T>::infinity(); };
template <class T> struct finite_max { static constexpr T value = std::numeric_limits<T>::max(); };
template <class T> struct finite_min { static constexpr T value = std::numeric_limits<T>::lowest(); };
template <class T> struct norm_min { static constexpr T value = std::numeric_limits<T>::min(); };
template <class T> struct quiet_NaN { static constexpr T value = std::numeric_limits<T>::quiet_NaN(); };
template <class T> inline constexpr T epsilon_v = epsilon<T>::value;
template <class T> inline constexpr T infinity_v = infinity<T>::value;
template <class T> inline constexpr T finite_max_v = finite_max<T>::value;
template <class T> inline constexpr T finite_min_v = finite_min<T>::value;
template <class T> inline constexpr T norm_min_v = norm_min<T>::value;
template <class T> inline constexpr T quiet_NaN_v = quiet_NaN<T>::value;
}
