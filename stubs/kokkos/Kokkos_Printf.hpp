#pragma once
#include <cstdio>
#include "kstub_base.hpp"
namespace Kokkos {
template <class... Args>
inline void printf(char const* format, Args... args) noexcept
{
    char buf[512];
    if constexpr (sizeof...(Args) == 0) {
        std::snprintf(buf, sizeof buf, "%s", format);
    } else {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
        std::snprintf(buf, sizeof buf, format, args...);
#pragma GCC diagnostic pop
    }
    if (kstub::st().printf_log.size() < 4096) {
        kstub::st().printf_log += buf;
    }
}
} // namespace Kokkos
