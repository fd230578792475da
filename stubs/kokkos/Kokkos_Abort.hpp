#pragma once
#include <cstdlib>
#include "kstub_base.hpp"
namespace Kokkos {
[[noreturn]] inline void abort(char const* const) { std::abort(); }
}
