// A generic problem used to drive the whole program: smooth (or piecewise constant) fields that are functions of the
// position and of the input file only, fixed-state user boundaries, an irregular user mesh, a user step that depends on
// the time, and a criterion for shifting the grid.
#pragma once

#include <array>
#include <cassert>
#include <cmath>
#include <string>

#include <inih/INIReader.hpp>

#include <Kokkos_Core.hpp>
#include <eos.hpp>
#include <geom.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <mpi.h>
#include <ndim.hpp>
#include <param.hpp>
#include <range.hpp>
#include <shift_criterion_interface.hpp>
#include <user_step.hpp>

#include "boundary.hpp"
#include "initialization_interface.hpp"

namespace hclpp {

class ParamSetup
{
public:
    double rho0, drho, P0, dP, u0, du, width, bc_gravity;
    std::array<double, 3> k, phase, xmin, xmax;
    bool step; // piecewise constant instead of smooth
    double vmax_shift;

    explicit ParamSetup(INIReader const& r)
        : rho0(r.GetReal("Initialisation", "rho0", 1.))
        , drho(r.GetReal("Initialisation", "drho", 0.))
        , P0(r.GetReal("Initialisation", "P0", 1.))
        , dP(r.GetReal("Initialisation", "dP", 0.))
        , u0(r.GetReal("Initialisation", "u0", 0.))
        , du(r.GetReal("Initialisation", "du", 0.))
        , width(r.GetReal("Initialisation", "width", 0.))
        , bc_gravity(r.GetReal("Initialisation", "bc_gravity", 0.))
        , step(r.GetBoolean("Initialisation", "step", false))
        , vmax_shift(r.GetReal("Initialisation", "vmax_shift", 1e300))
    {
        for (int d = 0; d < 3; ++d) {
            std::string const s = std::to_string(d);
            k[d] = r.GetReal("Initialisation", "k" + s, 1.);
            phase[d] = r.GetReal("Initialisation", "phase" + s, 0.);
            xmin[d] = r.GetReal("Grid", "x" + s + "min", 0.);
            xmax[d] = r.GetReal("Grid", "x" + s + "max", 1.);
        }
    }
    double wave(double x0, double x1, double x2, double shift) const
    {
        double const two_pi = 6.283185307179586;
        double a = 1;
        std::array<double, 3> const x {x0, x1, x2};
        for (int d = 0; d < ndim; ++d) {
            a *= std::cos((two_pi * k[d] * (x[d] - xmin[d]) / (xmax[d] - xmin[d])) + phase[d] + (shift * (d + 1)));
        }
        return step ? (a > 0 ? 1. : -1.) : a;
    }
    // the pressure of a user-defined boundary where the acceleration along it is g
    KOKKOS_FUNCTION double boundary_pressure(double g) const
    {
        return P0 * std::sqrt(1 + (bc_gravity * bc_gravity * g * g));
    }
};

struct VerifState
{
    // the fields at a position; n selects: 0 rho, 1 P, 2.. velocities, 10.. scalars
    static double at(ParamSetup const& p, int n, double x0, double x1, double x2)
    {
        if (n == 0) {
            return p.rho0 * (1 + (p.drho * p.wave(x0, x1, x2, 0.)));
        }
        if (n == 1) {
            return p.P0 * (1 + (p.dP * p.wave(x0, x1, x2, 0.7)));
        }
        if (n < 10) {
            return p.u0 + (p.du * p.wave(x0, x1, x2, 1.3 + (0.9 * n)));
        }
        return 0.5 + (0.5 * p.wave(x0, x1, x2, 0.3 * n));
    }
};

template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
    ParamSetup m_p;

public:
    InitializationSetup(EOS const& /*eos*/, ParamSetup const& p, Gravity const& /*g*/) : m_p(p) {}

    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx)
            const final
    {
        auto const p = m_p;
        auto const x0 = grid.x0_center;
        auto const x1 = grid.x1_center;
        auto const x2 = grid.x2_center;
        Kokkos::parallel_for(
                "verif_init",
                cell_mdrange(range),
                KOKKOS_LAMBDA(int i, int j, int k) {
                    double const a = x0(i);
                    double const b = x1(j);
                    double const c = x2(k);
                    rho(i, j, k) = VerifState::at(p, 0, a, b, c);
                    P(i, j, k) = VerifState::at(p, 1, a, b, c);
                    for (int d = 0; d < ndim; ++d) {
                        u(i, j, k, d) = VerifState::at(p, 2 + d, a, b, c);
                    }
                    for (int n = 0; n < fx.extent_int(3); ++n) {
                        fx(i, j, k, n) = VerifState::at(p, 10 + n, a, b, c);
                    }
                });
    }
};

template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
    EOS m_eos;
    ParamSetup m_p;

public:
    BoundarySetup(int idim, int iface, EOS const& eos, ParamSetup const& p) : IBoundaryCondition<Gravity>(idim, iface), m_eos(eos), m_p(p) {}

    void execute(
            Grid const& grid,
            Gravity const& gravity,
            KV_double_3d const& rho,
            KV_double_4d const& rhou,
            KV_double_3d const& E,
            KV_double_4d const& fx) const final
    {
        auto const p = m_p;
        auto const eos = m_eos;
        Kokkos::Array<int, 3> begin {0, 0, 0};
        Kokkos::Array<int, 3> end {rho.extent_int(0), rho.extent_int(1), rho.extent_int(2)};
        int const d = this->bc_idim();
        if (this->bc_iface() == 1) {
            begin[d] = rho.extent_int(d) - grid.Nghost[d];
        }
        end[d] = begin[d] + grid.Nghost[d];
        Kokkos::parallel_for(
                "verif_bc",
                Kokkos::MDRangePolicy<Kokkos::IndexType<int>, Kokkos::Rank<3>>(begin, end),
                KOKKOS_LAMBDA(int i, int j, int k) {
                    rho(i, j, k) = p.rho0;
                    double kin = 0;
                    for (int n = 0; n < ndim; ++n) {
                        rhou(i, j, k, n) = p.rho0 * p.u0;
                        kin += 0.5 * p.rho0 * p.u0 * p.u0;
                    }
                    E(i, j, k) = eos.compute_evol_from_pres(p.rho0, p.boundary_pressure(gravity(i, j, k, d))) + kin;
                    for (int n = 0; n < fx.extent_int(3); ++n) {
                        fx(i, j, k, n) = 0.25;
                    }
                });
    }
};

class GridSetup : public IGridType
{
    std::array<double, 3> m_min, m_max;
    double m_stretch;

public:
    explicit GridSetup(Param const& p)
        : m_min {p.x0min, p.x1min, p.x2min}
        , m_max {p.x0max, p.x1max, p.x2max}
        , m_stretch(p.reader.GetReal("Initialisation", "stretch", 0.))
    {
    }

    void execute(std::array<int, 3> ng, std::array<int, 3> n, KVH_double_1d const& x0, KVH_double_1d const& x1, KVH_double_1d const& x2) const final
    {
        std::array const x {x0, x1, x2};
        for (int d = 0; d < 3; ++d) {
            for (int i = 0; i < x[d].extent_int(0); ++i) {
                // monotonic as long as |stretch| < 1
                double const s = static_cast<double>(i - ng[d]) / n[d];
                double const w = s + (m_stretch * std::sin(6.283185307179586 * s) / 6.283185307179586);
                x[d](i) = m_min[d] + ((m_max[d] - m_min[d]) * w);
            }
        }
    }
};

class UserStep : public IUserStep
{
public:
    void execute(Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        Kokkos::parallel_for(
                "verif_user_step",
                cell_mdrange(range),
                KOKKOS_LAMBDA(int i, int j, int k) {
                    E(i, j, k) += 0.1 * dt * (1 + t) * rho(i, j, k);
                    for (int n = 0; n < fx.extent_int(3); ++n) {
                        fx(i, j, k, n) *= 1 - (0.1 * dt / (1 + t));
                    }
                });
    }
};

class UserShiftCriterion : public IShiftCriterion
{
    double m_vmax;

public:
    explicit UserShiftCriterion(ParamSetup const& p) : m_vmax(p.vmax_shift) {}

    [[nodiscard]] auto execute(
            Range const& range,
            Grid const& grid,
            KV_cdouble_3d const& rho,
            KV_cdouble_4d const& rhou,
            KV_cdouble_3d const& /*E*/,
            KV_cdouble_4d const& /*fx*/) const -> bool final
    {
        double v = 0;
        Kokkos::parallel_reduce(
                "verif_shift",
                cell_mdrange(range),
                KOKKOS_LAMBDA(int i, int j, int k, double& w) { w = Kokkos::max(w, rhou(i, j, k, 0) / rho(i, j, k)); },
                Kokkos::Max<double>(v));
        MPI_Allreduce(MPI_IN_PLACE, &v, 1, MPI_DOUBLE, MPI_MAX, grid.comm_cart);
        return v >= m_vmax;
    }
};

} // namespace hclpp
