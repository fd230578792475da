// A small, serial, host-only stand-in for the parts of Kokkos that HERACLES++ uses.
// It is NOT Kokkos: it exists because Kokkos is not installed in the sandbox, and it is
// deliberately stricter than a serial Kokkos build:
//   * the default ("device") memory space is distinct from HostSpace, so that a missing
//     host/device synchronisation shows up as stale data;
//   * every view access is bounds checked and a host access to device memory (or a kernel
//     access to host-only memory) is recorded as a fault;
//   * kernels may be iterated in forward, reverse or shuffled order and reductions/scans are
//     split in chunks that are joined afterwards, so that order dependent kernels show up.
// Faults never abort: they are recorded per thread and read by the harness.
#pragma once

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>

#define KOKKOS_VERSION 40700
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_DEDUCTION_GUIDE
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_ENABLE_SERIAL 1
#define KOKKOS_IF_ON_HOST(CODE) { KOKKOS_IMPL_STRIP_PARENS CODE }
#define KOKKOS_IF_ON_DEVICE(CODE) {}
#define KOKKOS_IMPL_STRIP_PARENS(...) __VA_ARGS__

namespace kstub {

struct State
{
    // harness controlled
    int order = 0; // 0 forward, 1 reverse, 2 shuffled
    std::uint64_t order_seed = 0;
    int reduce_chunks = 3;
    bool strict_spaces = true;
    long long kernel_budget = -1; // < 0: unlimited
    // observed
    long long kernels = 0;
    long long faults = 0;
    std::string first_fault;
    std::string printf_log;
    // what the thread holds
    enum class Phase { Any, Before, Up, After };
    Phase phase = Phase::Any; // other than Any: allocations and kernels belong between initialize and finalize
    long live = 0; // allocated arrays
    long peak = 0;
};

// > 0 while a kernel body or a deep_copy is running on this thread
inline constinit thread_local int in_kernel = 0;

inline State& st() noexcept
{
    static thread_local State s;
    return s;
}

inline void fault(std::string const& msg) noexcept
{
    State& s = st();
    if (s.faults++ == 0) {
        s.first_fault = msg;
    }
}

// Thrown when the kernel budget set by the harness is exhausted (runaway loop).
struct Runaway
{
};

inline void lifecycle(char const* what) noexcept
{
    State const& s = st();
    if (s.phase == State::Phase::Before || s.phase == State::Phase::After) {
        fault(std::string(what) + (s.phase == State::Phase::Before ? " before Kokkos::initialize" : " after Kokkos::finalize"));
    }
}
inline void set_phase(State::Phase p) noexcept
{
    if (st().phase != State::Phase::Any) {
        st().phase = p;
    }
}

inline void on_kernel()
{
    State& s = st();
    lifecycle("kernel");
    ++s.kernels;
    if (s.kernel_budget >= 0 && s.kernels > s.kernel_budget) {
        throw Runaway();
    }
}

struct KernelScope
{
    KernelScope() noexcept { ++in_kernel; }
    ~KernelScope() noexcept { --in_kernel; }
    KernelScope(KernelScope const&) = delete;
    KernelScope& operator=(KernelScope const&) = delete;
};

} // namespace kstub

#define KOKKOS_ASSERT(...)                                                                                                                           \
    {                                                                                                                                                \
        if (!bool(__VA_ARGS__)) {                                                                                                                    \
            ::kstub::fault("KOKKOS_ASSERT(" #__VA_ARGS__ ") failed");                                                                                \
        }                                                                                                                                            \
    }
#define KOKKOS_EXPECTS(...) KOKKOS_ASSERT(__VA_ARGS__)
#define KOKKOS_ENSURES(...) KOKKOS_ASSERT(__VA_ARGS__)
