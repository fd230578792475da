#pragma once
#include <numbers>
#include "kstub_base.hpp"
namespace Kokkos::numbers {
using std::numbers::e;
using std::numbers::e_v;
using std::numbers::egamma;
using std::numbers::inv_pi;
using std::numbers::inv_sqrt3;
using std::numbers::inv_sqrtpi;
using std::numbers::ln10;
using std::numbers::ln2;
using std::numbers::log10e;
using std::numbers::log2e;
using std::numbers::phi;
using std::numbers::pi;
using std::numbers::pi_v;
using std::numbers::sqrt2;
using std::numbers::sqrt3;
} // namespace Kokkos::numbers
