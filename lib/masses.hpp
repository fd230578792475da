// Enclosed masses of a spherical mesh, from the definition.
#pragma once

#include <world.hpp>

namespace hz {

inline double centre(Mesh const& m, int i)
{
    return (m.x[0][i] + m.x[0][i + 1]) / 2;
}
// mean density of the angular cells of every radial index
inline std::vector<long double> shell_means(Mesh const& m, Global const& rho)
{
    std::vector<long double> r(rho.n[0], 0);
    for (int i = 0; i < rho.n[0]; ++i) {
        long double mass = 0;
        long double vol = 0;
        for (int j = m.ngh[1]; j < m.ngh[1] + m.nx[1]; ++j) {
            for (int k = m.ngh[2]; k < m.ngh[2] + m.nx[2]; ++k) {
                long double const v = cell_volume(m, i, j, k);
                mass += v * rho(i, j, k);
                vol += v;
            }
        }
        r[i] = mass / vol;
    }
    return r;
}
// mass within the radius of each cell centre
inline std::vector<long double> enclosed(Mesh const& m, Global const& rho, double central)
{
    auto const mean = shell_means(m, rho);
    std::vector<long double> r(rho.n[0], central);
    long double below = central;
    auto const ball = [](long double x) { return 4 * std::numbers::pi_v<long double> / 3 * x * x * x; };
    for (int i = m.ngh[0]; i < rho.n[0]; ++i) {
        r[i] = below + (mean[i] * (ball(centre(m, i)) - ball(m.x[0][i])));
        below += mean[i] * (ball(m.x[0][i + 1]) - ball(m.x[0][i]));
    }
    return r;
}

} // namespace hz
