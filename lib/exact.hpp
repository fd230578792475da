// What checks/setup_exact puts in the cells: a field given by the check itself
#pragma once

#include <functional>

namespace hz {

struct ExactHook
{
    // n: 0 rho, 1 P, 2.. velocities, 10.. scalars
    std::function<double(int n, double x0, double x1, double x2)> field;
    bool hubble = false; // user boundaries: uniform density and pressure, velocity proportional to the position
};
inline ExactHook& exact_hook()
{
    static ExactHook h;
    return h;
}

} // namespace hz
