// Helpers shared by the property checks: ranks, views, random meshes and states.
#pragma once

#include <mpi.h>

#include <array>
#include <cmath>
#include <fstream>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>

#include <Kokkos_Core.hpp>
#include <kokkos_shortcut.hpp>
#include <ndim.hpp>
#include <pbt.hpp>

namespace hz {

using hclpp::ndim;

// Reset the stand-in state of this thread.  order: how kernels are iterated.
inline void reset(int order = 0, std::uint64_t seed = 0, bool strict = false)
{
    auto& s = kstub::st();
    s.order = order;
    s.order_seed = seed;
    s.strict_spaces = strict;
    s.kernel_budget = -1;
    s.kernels = 0;
    s.faults = 0;
    s.first_fault.clear();
    s.printf_log.clear();
}
inline void reset(pbt::Case& c)
{
    int const order = c.i(0, 2);
    reset(order, order == 2 ? c.below(1000) : 0);
}
inline void check_faults(char const* what = "")
{
    auto& s = kstub::st();
    if (s.faults != 0) {
        pbt::fail("out of bounds access or violated precondition in the code under test ", what, ": ", s.first_fault);
    }
}

// Run fn(rank) on n ranks; failures raised inside a rank are rethrown here.  Returns the outcome.
inline vmpi::Outcome ranks_outcome(int n, std::function<void(int)> const& fn, std::uint64_t seed = 0, std::vector<int> reorder = {})
{
    auto const cfg = kstub::st();
    std::mutex m;
    std::vector<pbt::Failure> fails;
    bool discarded = false;
    std::string fault;
    vmpi::Outcome o = vmpi::run(
            n,
            [&](int r) {
                kstub::st() = cfg;
                try {
                    fn(r);
                } catch (pbt::Failure const& f) {
                    std::lock_guard<std::mutex> const l(m);
                    fails.push_back(f);
                    throw std::runtime_error("check failed");
                } catch (pbt::Discard const&) {
                    discarded = true;
                    throw std::runtime_error("discard");
                } catch (kstub::Runaway const&) {
                    throw std::runtime_error("runaway loop: kernel budget exhausted");
                }
                std::lock_guard<std::mutex> const l(m);
                if (kstub::st().faults != 0 && fault.empty()) {
                    fault = kstub::st().first_fault;
                }
            },
            seed,
            std::move(reorder));
    if (!fails.empty()) {
        throw fails.front();
    }
    if (discarded) {
        throw pbt::Discard();
    }
    if (!fault.empty()) {
        pbt::fail("out of bounds access or violated precondition in the code under test: ", fault);
    }
    return o;
}
inline void ranks(int n, std::function<void(int)> const& fn, std::uint64_t seed = 0, std::vector<int> reorder = {})
{
    auto const o = ranks_outcome(n, fn, seed, std::move(reorder));
    if (!o.ok()) {
        std::string p = o.problems.empty() ? std::string() : o.problems.front();
        pbt::fail("ranks did not complete: ", o.deadlock ? "deadlock " : "", o.first_error(), " ", p);
    }
}
inline std::vector<int> random_perm(pbt::Case& c, int n)
{
    std::vector<int> p(n);
    for (int k = 0; k < n; ++k) {
        p[k] = k;
    }
    for (int k = n - 1; k > 0; --k) {
        std::swap(p[k], p[k - c.i(0, k)]);
    }
    return p;
}

inline std::string write_text(std::string const& name, std::string const& text)
{
    std::string const path = (pbt::opt().scratch.empty() ? std::string(".") : pbt::opt().scratch) + "/" + name;
    std::ofstream f(path, std::ios::binary);
    f << text;
    return path;
}

template <class V, class F>
void fill3(V const& v, F f)
{
    for (int k = 0; k < v.extent_int(2); ++k) {
        for (int j = 0; j < v.extent_int(1); ++j) {
            for (int i = 0; i < v.extent_int(0); ++i) {
                v(i, j, k) = f(i, j, k);
            }
        }
    }
}
template <class V, class F>
void fill4(V const& v, F f)
{
    for (int n = 0; n < v.extent_int(3); ++n) {
        for (int k = 0; k < v.extent_int(2); ++k) {
            for (int j = 0; j < v.extent_int(1); ++j) {
                for (int i = 0; i < v.extent_int(0); ++i) {
                    v(i, j, k, n) = f(i, j, k, n);
                }
            }
        }
    }
}
template <class V>
void fill_all(V const& v, double x)
{
    Kokkos::deep_copy(v, x);
}

} // namespace hz
