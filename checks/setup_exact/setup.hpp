// A problem whose initial state, and state at user-defined boundaries, is a function given by the check.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <string>

#include <inih/INIReader.hpp>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <exact.hpp>
#include <geom.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <mpi.h>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>
#include <shift_criterion_interface.hpp>
#include <user_step.hpp>

#include "boundary.hpp"
#include "default_grid_setup.hpp"
#include "default_shift_criterion.hpp"
#include "default_user_step.hpp"
#include "initialization_interface.hpp"

namespace hclpp {

class ParamSetup
{
public:
    explicit ParamSetup(INIReader const& /*r*/) {}
};

template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
public:
    InitializationSetup(EOS const& /*eos*/, ParamSetup const& /*p*/, Gravity const& /*g*/) {}

    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx)
            const final
    {
        auto const& f = hz::exact_hook().field;
        auto const x0 = grid.x0_center;
        auto const x1 = grid.x1_center;
        auto const x2 = grid.x2_center;
        Kokkos::parallel_for(
                "exact_init",
                cell_mdrange(range),
                [=, &f](int i, int j, int k) {
                    rho(i, j, k) = f(0, x0(i), x1(j), x2(k));
                    P(i, j, k) = f(1, x0(i), x1(j), x2(k));
                    for (int d = 0; d < ndim; ++d) {
                        u(i, j, k, d) = f(2 + d, x0(i), x1(j), x2(k));
                    }
                    for (int n = 0; n < fx.extent_int(3); ++n) {
                        fx(i, j, k, n) = f(10 + n, x0(i), x1(j), x2(k));
                    }
                });
    }
};

template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
    EOS m_eos;

public:
    BoundarySetup(int idim, int iface, EOS const& eos, ParamSetup const& /*p*/) : IBoundaryCondition<Gravity>(idim, iface), m_eos(eos) {}

    void execute(
            Grid const& grid,
            Gravity const& /*gravity*/,
            KV_double_3d const& rho,
            KV_double_4d const& rhou,
            KV_double_3d const& E,
            KV_double_4d const& fx) const final
    {
        auto const& f = hz::exact_hook().field;
        bool const hubble = hz::exact_hook().hubble;
        auto const eos = m_eos;
        auto const x0 = grid.x0_center;
        auto const x1 = grid.x1_center;
        auto const x2 = grid.x2_center;
        std::array const ng = grid.Nghost;
        Kokkos::Array<int, 3> begin {0, 0, 0};
        Kokkos::Array<int, 3> end {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        int const d = this->bc_idim();
        if (this->bc_iface() == 1) {
            begin[d] = rho.extent_int(d) - ng[d];
        }
        end[d] = begin[d] + ng[d];
        Kokkos::parallel_for(
                "exact_bc",
                Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>(begin, end),
                [=, &f](int i, int j, int k) {
                    if (hubble) {
                        std::array<int, 3> const c {i, j, k};
                        std::array<int, 3> q {};
                        for (int n = 0; n < 3; ++n) {
                            q[n] = std::clamp(c[n], ng[n], rho.extent_int(n) - ng[n] - 1);
                        }
                        double const r = rho(q[0], q[1], q[2]);
                        double kin_q = 0;
                        double kin = 0;
                        for (int n = 0; n < ndim; ++n) {
                            double const uq = rhou(q[0], q[1], q[2], n) / r;
                            double const xq = n == 0 ? x0(q[0]) : n == 1 ? x1(q[1]) : x2(q[2]);
                            double const xc = n == 0 ? x0(i) : n == 1 ? x1(j) : x2(k);
                            double const v = geom == Geometry::Geom_spherical && n > 0 ? uq : uq * xc / xq;
                            kin_q += 0.5 * r * uq * uq;
                            kin += 0.5 * r * v * v;
                            rhou(i, j, k, n) = r * v;
                        }
                        rho(i, j, k) = r;
                        E(i, j, k) = E(q[0], q[1], q[2]) - kin_q + kin;
                        for (int n = 0; n < fx.extent_int(3); ++n) {
                            fx(i, j, k, n) = fx(q[0], q[1], q[2], n);
                        }
                        return;
                    }
                    double const r = f(0, x0(i), x1(j), x2(k));
                    double kin = 0;
                    for (int n = 0; n < ndim; ++n) {
                        double const v = f(2 + n, x0(i), x1(j), x2(k));
                        rhou(i, j, k, n) = r * v;
                        kin += 0.5 * r * v * v;
                    }
                    rho(i, j, k) = r;
                    E(i, j, k) = eos.compute_evol_from_pres(r, f(1, x0(i), x1(j), x2(k))) + kin;
                    for (int n = 0; n < fx.extent_int(3); ++n) {
                        fx(i, j, k, n) = f(10 + n, x0(i), x1(j), x2(k));
                    }
                });
    }
};

} // namespace hclpp
