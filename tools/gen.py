#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below (run after editing them)."""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(ROOT, "checks"))
from table import TABLE

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, level_note=level_note, technique=technique))


STUBS = "The code runs against stand-ins for Kokkos, MPI, PDI and paraconf (none is installed here); host execution only, tolerances as stated in the check source."

prop("C01", "Input files are read exactly as their grammar says",
     "For every input text, the parser reports exactly the sections, names and values that the documented INI grammar assigns to it, in order, and returns the number of the first line that is in error (0 when there is none). This holds whatever the line lengths, line ends, comments, byte order mark, continuation lines and compile-time options, and whether the text comes from a file, a string, a stream or a custom reader. No input makes it read or write outside its buffers.",
     ["inputs", "configurations"], "every byte string as text; every compile-time option set; every reader function",
     "The tests feed eight fixed files and six strings; grammar corner cases (long lines at the buffer edge, continuation after a section change, comment prefixes inside values, options combined) are combinatorial.",
     ["vendor/inih/src/ini.c", "vendor/inih/include/ini.h"],
     [("line reading, buffer growth and truncation", "vendor/inih/src/ini.c ini_parse_stream"), ("string reader", "vendor/inih/src/ini.c ini_reader_string")],
     "Random and grammar-based texts against an independent line parser for eight option sets, plus address and undefined-behaviour sanitizers and a coverage-guided run. " , "property-based testing against a reference parser, coverage-guided fuzzing")

prop("C02", "Typed look-ups return the value written in the file, else the default",
     "Looking up a key returns the value written for it in its section, independent of the case of section and key, of the layout and of everything else in the file: text verbatim, decimal and hexadecimal integers exactly, reals to the nearest value of the type, booleans for true/yes/on/1 and false/no/off/0. The caller's default is returned when the key is absent. A text that is not of the requested type or does not fit never becomes another value, and a missing or malformed file is refused. Repeated keys are joined by newlines in file order.",
     ["inputs"], "every file content, every section, key and default, every type",
     "No test exercises the typed look-ups at all; their conversions range over all numerals, cases, defaults and repeated keys.",
     ["vendor/inih/src/INIReader.cpp", "vendor/inih/include/INIReader.h"],
     [("key construction, lower-casing and multi-value join", "vendor/inih/src/INIReader.cpp ValueHandler, MakeKey")],
     "Random key/value maps rendered with random layout, compared with the map. ", "property-based testing against a map model")

prop("C03", "Run parameters and named schemes are what the input file says",
     "Every run parameter takes the value given in the input file, and its documented default when the file is silent, without one parameter influencing another. Every supported name of a solver, reconstruction, gravity, grid type, boundary condition or user step selects that very scheme, and any other name is rejected with an error instead of silently selecting something.",
     ["inputs", "configurations"], "every combination of given and omitted parameters with any values, every scheme name and every near miss",
     "The tests build parameter sets by hand and never read them from a file; the space of present/absent parameters is exponential.",
     ["src/utils/param.cpp", "src/utils/param.hpp", "src/boundary_factory.hpp", "src/mesh/grid_factory.cpp", "src/main.cpp"],
     [("parameter constructor", "src/utils/param.cpp"), ("named factories", "src/boundary_factory.hpp, src/mesh/grid_factory.cpp, src/user_step/user_step_factory.cpp, src/mesh/geometry_factory.cpp")],
     "Random subsets of parameters with random values against an independent table of keys and defaults; behavioural identification of the scheme a name selects. ", "property-based testing against a parameter table")

prop("C04", "Integer narrowing is exact or refused",
     "Converting an integer between any two standard integer types returns the same mathematical value whenever the target type can represent it, and is refused otherwise.",
     ["inputs"], "every pair of integer types, every value",
     "The tests try four values for two pairs of types.",
     ["src/utils/int_cast.hpp"], [("range comparison before the cast", "src/utils/int_cast.hpp int_cast")],
     "Boundary-biased values for all pairs of ten integer types, compared with 128-bit arithmetic. ", "property-based testing against wide integer arithmetic")

prop("D01", "Mirrored host/device data never goes stale and never loses a write",
     "After any sequence of reads, writes and synchronisations through the views of either side, a side opened for reading holds the most recently written value of every element, whichever side wrote it. Opening or synchronising a side that is already up to date changes nothing, the need for a synchronisation is reported exactly when it exists, and every copy or constant view of a mirrored array shares its data and its state.",
     ["histories"], "every sequence of read-only, read-write and discard-write accesses, synchronisations, copies and state resets on either side, for arrays of any rank and extent, whether or not both sides share memory",
     "The tests walk six short hand-written sequences.",
     ["src/dual_view/dual_view.hpp"], [("modification counters", "src/dual_view/dual_view.hpp")],
     "Random operation histories against a two-copy model, with both shared and separate memory spaces emulated. ", "stateful property-based testing against a model")

prop("T01", "Equations of state are consistent and reject invalid states",
     "For both gas models, pressure, internal energy, temperature and sound speed obtained from one another by any route describe one and the same gas: conversions are mutual inverses, agree with the ideal-gas (plus black-body radiation) laws, grow strictly with temperature, and the sound speed is the thermodynamic one. A state is called valid exactly when its density and pressure or energy are finite and positive, and a non-physical adiabatic index or molecular weight is refused.",
     ["inputs"], "every density, pressure, energy or temperature over many decades, every adiabatic index and molecular weight",
     "The tests use a handful of fixed states; radiation/gas dominated extremes and iteration convergence are never sampled.",
     ["src/thermodynamics/perfect_gas.cpp", "src/thermodynamics/rad_gas.cpp", "src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/rad_gas.hpp"],
     [("closed-form relations", "src/thermodynamics/perfect_gas.hpp"), ("temperature iteration", "src/thermodynamics/rad_gas.cpp")],
     "Random states over 35 decades against an independent equation of state solved by bisection. ", "property-based testing: round trips, laws and a reference solver")

prop("T02", "Primitive and conserved variables convert back and forth without loss",
     "Converting a physical state to conserved variables and back returns the same state, total energy is internal plus kinetic energy, and the physical flux of a state is the Euler flux for that state. Whole-array conversions treat every cell of the requested range, and no other, independently and exactly as the single-state conversion.",
     ["inputs"], "every physical state, array size, ghost depth and range",
     "The tests convert one state; arrays, ranges, dimensions and Mach-number extremes are not sampled.",
     ["src/hydro/euler_equations.hpp", "src/hydro/array_conversion.hpp"],
     [("state conversions and flux", "src/hydro/euler_equations.hpp"), ("array loops", "src/hydro/array_conversion.hpp")],
     "Random states and arrays against independent formulas. ", "property-based testing: round trip and reference formulas")

prop("R01", "Interface fluxes are consistent, upwind, mirror- and permutation-symmetric",
     "For every pair of valid states and each of the selectable solvers, the numerical flux equals the physical flux when both states agree, equals the upwind physical flux when the flow is supersonic, is unchanged up to sign under reflection and under relabelling of the axes, and follows a change of units. It is finite, its contact-resolving variants keep a stationary contact exactly still, and it agrees with the published formula of the solver.",
     ["inputs"], "every pair of valid left/right states, every direction, dimension, gas model and solver",
     "The tests check consistency for one or two states per solver.",
     ["src/hydro/riemann_solver.hpp"], [("wave speed estimates and flux selection", "src/hydro/riemann_solver.hpp")],
     "Random pairs of states, metamorphic relations and independent implementations of the three formulas. ", "property-based testing: metamorphic relations and reference formulas")

prop("L01", "Reconstruction is exact for linear data and creates no new extrema",
     "Face values reconstructed in a cell lie between the averages of the cell and its neighbours, reproduce linear data on uniform meshes, equal the cell average for constant data or when the two slopes disagree in sign, and do not depend on which way an axis points. Each limiter is symmetric in its arguments, scales with them, and lies within its second-order bounds.",
     ["inputs"], "every field, mesh spacing, dimension and limiter",
     "The tests evaluate limiters on a few numbers and never reconstruct a field.",
     ["src/hydro/slope_limiters.hpp", "src/hydro/limited_linear_reconstruction.hpp", "src/hydro/face_reconstruction.cpp"],
     [("limiters", "src/hydro/slope_limiters.hpp"), ("cell-wise linear reconstruction", "src/hydro/limited_linear_reconstruction.hpp")],
     "Random slopes and random fields on random meshes. ", "property-based testing: algebraic laws and reference reconstruction")

prop("M01", "The domain decomposition tiles the mesh and coordinates agree everywhere",
     "For any mesh size and any number of processes, the processes' boxes are disjoint, cover the whole mesh, have sizes that differ by the documented remainder rule, and know their true neighbours; unsatisfiable requests are refused. Every process sees the same global coordinates, its local coordinates, widths and centres are the matching slice of the global ones including ghosts, and regular, user and log-like generated meshes span exactly the requested interval. Index ranges enlarge or shrink exactly as asked.",
     ["configurations", "inputs"], "every mesh size, ghost depth, process count, process grid and coordinate array",
     "The tests cover a few splits and ranges in one process.",
     ["src/mesh/grid.cpp", "src/mesh/grid_type.cpp", "src/mesh/range.cpp", "src/mesh/grid.hpp", "src/mesh/range.hpp"],
     [("decomposition", "src/mesh/grid.cpp"), ("coordinate generation", "src/mesh/grid_type.cpp")],
     "Random meshes on 1 to 12 emulated processes, compared with a direct partition of the global mesh. ", "property-based testing against a global model")

prop("M02", "Cell volumes and face areas are the exact geometric measures",
     "In Cartesian and spherical geometry and in any dimension, every cell volume and face area, ghosts included, equals the analytic measure of the cell or face, is positive, is additive under merging of cells, and closes: the volume is the integral of the areas.",
     ["inputs"], "every mesh, spacing, geometry and dimension",
     "No test computes a volume or an area.",
     ["src/mesh/geometry.cpp"], [("analytic measures", "src/mesh/geometry.cpp")],
     "Random meshes against analytic measures, and additivity under merging. ", "property-based testing against analytic measures")

prop("B01", "Physical boundaries fill ghosts by the rule of their kind and touch nothing else",
     "A zero-gradient boundary copies the last interior layer into every ghost layer of its face, and a reflecting boundary mirrors the interior with the sign of the normal momentum flipped. This holds for density, momentum, energy and all passive scalars, on each face, edge and corner of the boundary, and interior cells and ghosts of other faces are left untouched.",
     ["inputs", "configurations"], "every field, ghost depth, mesh size, face, dimension and boundary kind",
     "No test runs a boundary condition.",
     ["src/boundary.cpp", "src/boundary.hpp", "src/boundary_factory.hpp"],
     [("ghost filling", "src/boundary.cpp")],
     "Random fields against a direct index model of each rule. ", "property-based testing against an index model")

prop("B02", "Ghost exchange makes the decomposed domain look like one domain",
     "After an exchange, every ghost cell that overlaps another process's interior, directly or through a periodic wrap, diagonal neighbours included, holds that interior value, for all fields and scalars. Interior cells never change, and the exchange completes on every process whatever the order in which messages arrive.",
     ["configurations", "schedules", "inputs"], "every process grid, mesh size, ghost depth, periodicity and message order",
     "No test exchanges ghosts or runs on more than one process.",
     ["src/boundary_distribute.cpp", "src/mesh/grid.cpp"],
     [("packed neighbour exchange, axis by axis", "src/boundary_distribute.cpp ghost_sync")],
     "Random decompositions on emulated processes with random schedules, compared with the global array. ", "property-based testing against the global array")

prop("B03", "Where boundary conditions overlap, the one of highest priority wins",
     "In ghost corners shared by several physical boundaries, the values are those of the boundary with the highest priority in the user's list (first entry highest; by default left/right X, then Y, then Z). Lists that are not a permutation of the faces are refused, and the result does not depend on the domain decomposition.",
     ["configurations"], "every priority list, boundary kind per face, decomposition and field",
     "No test sets a priority; there are 720 lists in three dimensions.",
     ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp"],
     [("ordering of the faces", "src/boundary_distribute.cpp generate_order")],
     "Random priority lists and boundary kinds, compared with a model that picks the winner per ghost cell. ", "property-based testing against an index model")

prop("S01", "A step conserves mass, momentum, energy and passive-scalar mass",
     "Over a hydrodynamic step without gravity on a closed (periodic) domain, the totals of mass, of every Cartesian momentum component, of energy and of every passive scalar's mass change only by rounding, as long as no scalar has to be clipped to [0, 1]. Reflecting walls (with a mesh that is symmetric about the wall, or the origin of a spherical mesh) let no mass, energy or scalar mass through, nor does a boundary along which the gas is at rest in any geometry. With open boundaries the totals change exactly by the boundary fluxes.",
     ["inputs", "configurations"], "every valid state, mesh, dimension, geometry, solver, limiter, gas model and decomposition",
     "No test runs a time step.",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/hydro_reconstruction.hpp", "src/hydro/extrapolation_reconstruction.hpp"],
     [("telescoping face fluxes", "src/hydro/godunov_scheme.hpp")],
     "Random states over a full step on random meshes. ", "property-based testing: invariants of the step")

prop("S02", "Uniform equilibria stay exactly as they are",
     "A uniform state at rest, and in Cartesian geometry also in uniform motion, is unchanged by a step up to rounding on every mesh, geometry, dimension and solver, with the matching boundaries. Contact discontinuities at rest are kept exactly by the contact-resolving solvers. A step of zero duration changes nothing.",
     ["inputs", "configurations"], "every uniform state, mesh, geometry, dimension, solver and reconstruction",
     "No test runs a time step.",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/source_terms.hpp", "src/hydro/extrapolation_reconstruction.hpp"],
     [("balance of pressure fluxes and geometric source terms", "src/hydro/source_terms.hpp")],
     "Random uniform states on random meshes. ", "property-based testing: equilibrium preservation")

prop("S03", "Equivalent problems give equivalent solutions",
     "Reflecting or permuting the axes, translating along a periodic axis, embedding a problem in more dimensions, or changing the units of length, mass and time changes the result of a step in exactly the same way and in no other. Cells depend only on data within the stencil.",
     ["inputs", "configurations"], "every valid state, mesh, dimension, solver, limiter and transformation",
     "No test runs a time step, let alone two related ones.",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/face_reconstruction.cpp"],
     [("per-direction loops", "src/hydro/godunov_scheme.hpp")],
     "Random problems and transformed copies through the same step. ", "metamorphic property-based testing")

prop("S04", "Passive scalars stay bounded, are advected with the mass and never act back",
     "A passive scalar is carried with the mass flux: it stays within [0, 1], a constant scalar stays constant, and the flow is identical whatever and however many scalars are carried. Scalars do not influence one another, each is treated alike, and a scalar and its complement to one stay complements.",
     ["inputs"], "every flow, mesh, number of scalars and scalar field",
     "No test advects a scalar.",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp"],
     [("upwind scalar flux and clamp", "src/hydro/godunov_scheme.hpp")],
     "Random flows with random scalars. ", "property-based testing: invariants and metamorphic relations")

prop("S05", "One step is the published second-order Godunov scheme",
     "The state after one step equals, to rounding, the limited linear, half-step-predicted Godunov update of the initial state, including geometric and gravity source terms and scalar transport, for every solver, limiter, gas model, geometry and dimension. For smooth data on fine meshes the rate of change is that of the Euler equations in that geometry.",
     ["inputs", "configurations"], "every valid state, mesh, solver, limiter, gravity, geometry and dimension",
     "No test runs a time step; single-kernel tests cannot see a wrong index, factor or missing term in a combined update.",
     ["src/hydro/hydro_reconstruction.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/godunov_scheme.hpp", "src/hydro/source_terms.hpp", "src/hydro/face_reconstruction.cpp"],
     [("reconstruction, half-step predictor and flux update", "src/hydro/*.hpp")],
     "Random problems against an independent serial implementation. ", "differential property-based testing against a reference implementation")

prop("S06", "The internal-energy safeguard acts only where it must",
     "With the safeguard for kinetic-energy dominated cells enabled, cells whose internal energy exceeds the threshold fraction of the kinetic energy are unaffected, mass, momentum and scalars are never changed, and corrected cells end between the conservative energy and the one evolved by the internal-energy equation. A uniformly moving uniform gas stays unchanged.",
     ["inputs", "configurations"], "every state from cold supersonic to hot, threshold, mesh, geometry and dimension",
     "No test enables it.",
     ["src/hydro/pressure_fix.hpp"], [("threshold and blending", "src/hydro/pressure_fix.hpp")],
     "Random problems, kernels run with and without the safeguard and against an independent formula. ", "differential property-based testing")

prop("S07", "The time step is the exact stability limit of the whole domain",
     "The time step before the safety factor is the reciprocal of the largest sum over directions of signal speed over cell width, over all cells of all processes and no others. It is the same on every process, follows units, and shrinks whenever a cell gets faster, hotter or narrower.",
     ["inputs", "configurations"], "every valid field, mesh, geometry, dimension, decomposition and iteration order",
     "No test computes a time step.",
     ["src/hydro/time_step.hpp"], [("reduction over cells and processes", "src/hydro/time_step.hpp")],
     "Random fields against a direct maximum, on 1 to 6 emulated processes. ", "property-based testing against a direct formula")

prop("S08", "Runs converge to the exact solutions of the Euler equations",
     "When the mesh is refined, the result of a run approaches the exact solution of the Euler equations, with an error that decreases at the order of the scheme: second order for smooth flows with a reconstruction, first order without, and towards the exact waves for initial discontinuities. This holds for sound, entropy, shear and scalar waves, Riemann problems, vortices, expanding gas, steady radial and parallel flows, and equilibria in a gravity field, in every geometry and dimension.",
     ["inputs", "configurations"], "every smooth or discontinuous initial state with a known solution, solver, limiter, gas model, geometry and dimension",
     "Convergence is a statement about pairs of whole runs on different meshes; no test runs the scheme.",
     ["src/main.cpp", "src/hydro", "src/gravity", "src/thermodynamics"], [("time integration", "src/main.cpp"), ("scheme", "src/hydro/*.hpp")],
     "Random members of nine families of exact solutions, each run at two resolutions; limits on the error and on its decrease. ", "property-based testing against exact solutions (convergence)")

prop("S09", "Results do not depend on the system of units",
     "The same problem written in another system of units of length, velocity and density (with the values of the physical constants kept) gives the same outputs, at the same times and iterations, once converted back: no scheme, limiter, boundary condition, gravity, time step, safeguard, moving grid or output time contains an absolute threshold or a dimensionally inconsistent term.",
     ["inputs", "configurations"], "every problem, mesh, scheme and option, over more than thirty orders of magnitude of the units; with radiation, the family of units that keeps the radiation constant",
     "Needs pairs of whole runs at scales (interstellar to stellar) that no test uses; an absolute threshold is invisible near unity.",
     ["src/main.cpp", "src/hydro/godunov_scheme.hpp", "src/hydro/euler_equations.hpp", "src/hydro/time_step.hpp", "src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/rad_gas.hpp", "src/mesh/grid.cpp"],
     [("main time loop", "src/main.cpp main"), ("conversions", "src/hydro/euler_equations.hpp to_prim")],
     "Pairs of runs of a generic problem in two systems of units that are powers of two (bit for bit the same on the current code), outputs compared field by field. ", "metamorphic property-based testing of whole runs")

prop("G01", "Gravity is the field of the stated mass distribution",
     "Uniform gravity is the given constant vector, point-mass gravity points to the centre with the inverse-square strength at every cell centre, and self gravity equals that of the mass enclosed in each shell plus the central mass, whatever the angular distribution and decomposition. A spherically symmetric density gives the field of Newton's shell theorem on each shell.",
     ["inputs", "configurations"], "every density field, mesh, central mass, decomposition over the angles and dimension",
     "The tests evaluate the uniform field only.",
     ["src/gravity/gravity.hpp", "src/gravity/gravity.cpp"], [("enclosed mass", "src/gravity/gravity.cpp")],
     "Random densities and meshes against direct summation. ", "property-based testing against direct summation")

prop("A01", "Diagnostics are the true global values",
     "Reported totals are the volume integrals over the interior of the whole domain, the minimum internal energy is the true minimum and never hides a non-physical (negative or not-a-number) cell, and temperatures are those of the cell states. All are the same on every process and independent of the decomposition and of ghost values.",
     ["inputs", "configurations"], "every field with arbitrary ghosts, decomposition and iteration order",
     "No test computes a diagnostic.",
     ["src/analysis/integration.cpp", "src/analysis/internal_energy.cpp", "src/analysis/temperature.hpp"],
     [("reductions", "src/analysis/*.cpp")],
     "Random fields on 1 to 6 emulated processes against direct sums and minima. ", "property-based testing against direct reductions")

prop("A02", "Broadcasting fills every interior cell with the right profile value",
     "Broadcasting a value or a radial profile sets every interior cell of a field to the value, or to the profile entry of its own first index, component by component, and touches no ghost cell.",
     ["inputs"], "every profile, field, range and ghost depth", "The tests broadcast onto one small field.",
     ["src/broadcast.cpp", "src/broadcast.hpp"], [("profile indexing", "src/broadcast.cpp")],
     "Random profiles and fields. ", "property-based testing against an index model")

prop("V01", "A moving grid carries every field along unchanged",
     "When the mesh follows the flow by one cell, every array and every coordinate moves down by exactly one cell together, in all directions alike and on every process, the mesh keeps its spacing rule at the far end, and widths, centres, volumes and areas describe the new coordinates.",
     ["inputs", "histories", "configurations"], "every field, mesh, number of successive shifts and decomposition over the other axes",
     "No test shifts a grid.",
     ["src/moving_grid/moving_grid.cpp", "src/main.cpp"], [("shift of arrays and coordinates", "src/moving_grid/moving_grid.cpp")],
     "Random fields and repeated shifts. ", "stateful property-based testing against an index model")

prop("U01", "Nickel heating deposits exactly the radioactive decay energy",
     "The heating step adds to each interior cell's energy the mass of nickel times the specific power of the nickel-cobalt decay chain at the current time times the duration, and changes nothing else. With no nickel or no duration, or without heating, nothing changes.",
     ["inputs"], "every density, nickel fraction, time and duration", "No test runs a user step.",
     ["src/user_step/user_step.cpp", "src/user_step/user_step_factory.cpp"], [("decay power", "src/user_step/user_step.cpp")],
     "Random fields and times against the Bateman solution. ", "property-based testing against the analytic decay chain")

prop("I01", "Each bundled problem starts from its documented initial state",
     "Every bundled problem sets each interior cell to the state its description prescribes at that cell's position, for any resolution, parameters, dimension and decomposition, so that the initial state of a decomposed run is the one of the serial run. A parameter of the problem that the file leaves out is 1 (the temperature of eq_hydro_sphe is 100). All initial states are physical.",
     ["configurations", "inputs"], "every bundled problem, resolution, parameter set and decomposition",
     "No test initialises a problem.",
     ["src/setups", "src/initialization_interface.cpp"], [("initial conditions", "src/setups/*/setup.hpp")],
     "Random parameters and decompositions, the initial output compared with independent formulas and with the serial run. ", "property-based testing: reference formulas and decomposition independence")

prop("I02", "Every shipped input file runs, with the invariants of its problem",
     "Every input file shipped with the program is accepted by the problem it is written for and runs without an error, at any resolution, number of ghost layers and process decomposition: every output holds a physical state (positive density, pressure and temperature, scalars in [0, 1]), iterations and times progress and end where the file asks, closed boxes keep their mass, advected patterns keep a uniform velocity and pressure, a symmetric problem stays symmetric, and the result is the one of the serial run.",
     ["configurations", "inputs"], "every shipped input file, resolution, number of ghost layers, run length and decomposition",
     "No test runs the program, let alone with the shipped inputs.",
     ["inputs", "src/setups", "src/main.cpp"], [("shipped inputs", "inputs/*.ini"), ("their problems", "src/setups/*")],
     "Runs of the whole program with the shipped input files under random resolution, ghost layers, lengths and decompositions; problem invariants and the serial run are the oracles. ", "property-based testing of whole runs: invariants and a differential oracle")

prop("O01", "Output files hold the full interior state and restart reads it back exactly",
     "Every output file contains, for each field, exactly the interior cells of the whole domain in global order, the coordinates, the time and the counters at that moment, whatever the decomposition, and names the version, branch and date of the program that wrote it. Reading such a file back, on any decomposition, restores all of them bit for bit.",
     ["inputs", "configurations"], "every field, mesh, counter, number of scalars and writer/reader decomposition",
     "No test writes or reads a file.",
     ["src/io/io.cpp", "src/io/io_hdf5.hpp", "src/io/config.yaml.cpp"], [("parallel write description", "src/io/config.yaml.cpp"), ("read", "src/io/io.cpp")],
     "Random fields written on one decomposition, inspected directly, and read on another. ", "property-based testing: round trip across decompositions")

prop("O02", "The visualisation index describes exactly the files written",
     "The index file lists every regular output of the run so far once, in order, with its exact time, and for every field of that output a reference whose name, shape and file are those of the data written; it is well-formed after every output, also when the run continues from a restart file.",
     ["histories", "configurations"], "every sequence of outputs, mesh, dimension, geometry and number of scalars",
     "No test writes the index.",
     ["src/io/io.cpp"], [("index writer", "src/io/io.cpp")],
     "Random runs; the index is parsed and compared with the files. ", "property-based testing: index against files")

prop("O03", "A restarted run continues as if it had never stopped",
     "Stopping a run at any output and restarting from that file, on the same or another decomposition, yields the same later states, times, iteration numbers and output files as the uninterrupted run.",
     ["crash_points", "configurations"], "every output of a run as restart point, every problem and decomposition",
     "No test runs or restarts the program.",
     ["src/main.cpp", "src/io/io.cpp"], [("restart data", "src/io/io.cpp, src/main.cpp")],
     "Random runs restarted at random outputs and compared with the uninterrupted run. ", "metamorphic property-based testing of whole runs")

prop("O04", "Outputs happen at the requested iterations and times and the run ends on time",
     "Outputs requested every n iterations appear after exactly these iterations, outputs requested every interval appear at exactly these times, numbered without gaps or repetition from the initial one, and the run ends at the requested final time or iteration count, whichever comes first, without overshooting. When the time given to the job is used up on the clock of the first process, every process stops after the same iteration, whose state is saved as if it had been the last one requested. Time increases with every iteration by at most the safety factor times the stability limit.",
     ["configurations"], "every combination of output frequencies, first output time, final time, iteration limit and safety factor",
     "No test runs the program.",
     ["src/main.cpp"], [("output and time step control", "src/main.cpp, src/io/io.cpp")],
     "Random schedules of outputs against a model of the schedule. ", "property-based testing against a schedule model")

prop("O05", "Results do not depend on the number of processes or the process grid",
     "Running the same input on any number of processes and any process grid gives the same states, times and outputs up to rounding.",
     ["configurations", "schedules"], "every problem, process count, process grid and message order",
     "No test runs on more than one process.",
     ["src/main.cpp", "src/boundary_distribute.cpp", "src/mesh/grid.cpp"], [("ghost exchange and reductions", "src/boundary_distribute.cpp")],
     "Random runs on 1 process and on several, compared. ", "metamorphic property-based testing of whole runs")

prop("O06", "Results do not depend on the order in which cells are processed",
     "All loops over cells may be executed in any order, in parallel and with separate host and device memories: every order gives the same state up to rounding, and no loop reads outside its arrays or reads what another iteration of the same loop writes.",
     ["schedules"], "every iteration order of every kernel, every problem",
     "The tests execute one order.",
     ["src/hydro", "src/main.cpp", "src/io/io.cpp"], [("parallel loops", "src/**")],
     "Whole runs with forward, backward and random kernel order and with separated memory spaces, compared. ", "metamorphic property-based testing over emulated schedules")

prop("O07", "Invalid states and requests stop the run with an error",
     "A run whose state becomes non-physical, whose time step is not positive, or whose input names an unknown scheme, an unsatisfiable process grid or an undefined boundary, ends with an error on every process, after saving the last state where documented, and never hangs, loops for ever or reports success.",
     ["inputs", "configurations", "fault_sequences"], "every invalid state, parameter and the iteration at which it appears",
     "No test runs the program.",
     ["src/main.cpp", "src/analysis/internal_energy.cpp"], [("validity checks in the main loop", "src/main.cpp")],
     "Runs with injected invalid states and inputs. ", "property-based testing with fault injection")

prop("O08", "A restart file that does not match the run is refused",
     "Restarting from a file that is missing, truncated, incomplete, or written for another mesh size or dimension or with fewer scalars than the run needs is refused with an error on every process; it never yields a running simulation with partly read or zero data, and no output is written.",
     ["fault_sequences", "configurations"], "every mismatch between file and run, every missing dataset and every truncation",
     "No test restarts the program.",
     ["src/io/io.cpp", "src/io/io_hdf5.hpp"], [("extent checks on read", "src/io/io_hdf5.hpp")],
     "Restart files damaged or written for other runs. ", "property-based testing with fault injection")

prop("O09", "Every iteration of a run is one step of the documented scheme",
     "In every run, the state after an iteration is the state before it advanced by one MUSCL-Hancock finite-volume step with the solver, limiter, gravity, boundary conditions and options the input file selects: ghosts filled by the boundary conditions of that moment, reconstruction advanced by half a time step, gravity of the current mass distribution and mesh, internal-energy safeguard, then user sources at the current time, then, when the criterion asks for it and the radius limit allows it, one move of the mesh. The time step is the CFL factor times the stability limit unless an output or the end clips it, the first state is the initial condition at the cell centres of the requested mesh, and energy and temperature on output belong to the density, pressure and velocity saved with them.",
     ["inputs", "histories", "configurations"], "every problem, mesh, scheme, boundary priority, gravity, option and decomposition; every iteration",
     "No test runs the program; the composition of the parts in the main loop (order, arguments, which arrays are current) is checked nowhere.",
     ["src/main.cpp", "src/hydro/godunov_scheme.hpp", "src/hydro/hydro_reconstruction.hpp", "src/boundary_distribute.hpp", "src/moving_grid/moving_grid.cpp", "src/gravity/gravity.cpp"],
     [("main time loop", "src/main.cpp main")],
     "Runs of a generic problem that save every iteration; every transition compared with an independent serial step. ", "property-based testing against a reference model of one step")

prop("O10", "What a run says is what it did",
     "The report of a run is true: it describes the problem, equation of state, geometry, gravity, schemes, options and passive scalars actually used, the mesh, and a process grid and local extents that tile it; it announces every output with the identifier, iteration, time and share of the requested time held by that file, names the restart file with its time and iteration, and ends with the time and number of iterations reached and the global mass of the first state and its change. An unknown scheme, boundary condition or user option ends the run with a message naming it on every process; a description of the outputs given on the command line replaces the built-in one; without an input file the program explains its usage and fails.",
     ["inputs", "configurations", "histories"], "every input file, process grid, rank reordering and restart point",
     "Unit tests only exercise one print function; no test runs the program, so no number of its report is compared with anything.",
     ["src/main.cpp", "src/io/io.cpp", "src/mesh/grid.cpp", "src/utils/print_info.hpp", "src/analysis/integration.cpp"],
     [("the report", "src/main.cpp main"), ("announcement of an output", "src/io/io.cpp print_simulation_status")],
     "Random runs (several processes, restarts, moved meshes, stopped runs) whose captured output is compared with the input file, the machine and the files written. ", "property-based testing against the files and the request")

prop("O11", "A run gives back everything it takes, and a longer run holds no more",
     "What a run holds does not grow with its number of iterations, outputs or grid shifts: arrays, open files, HDF5 objects, communicators and messages. When it ends, every array is deallocated, every file and HDF5 object it opened is closed, every communicator it created is freed on every process, every message is received, the description of the outputs is destroyed and the output library finalized, each exactly once and while the libraries are up: nothing of MPI or Kokkos is used before its initialization or after its finalization. A run that ends with an error (a restart from a damaged file or another mesh, an unknown scheme, an invalid state) also leaves no array, file or HDF5 object behind.",
     ["inputs", "histories", "faults"], "every input file, process grid, length, restart point, and place where a run may stop with an error",
     "Unit tests make one object at a time and do not count what is left; leaks show in runs of many outputs or in refused restarts, which no test makes.",
     ["src/main.cpp", "src/io/io.cpp", "src/io/io_hdf5.hpp", "src/mesh/grid.cpp", "src/mpi_scope_guard.cpp", "src/moving_grid/moving_grid.cpp"],
     [("HDF5 identifiers", "src/io/io_hdf5.hpp RaiiH5Hid"), ("communicators", "src/mesh/grid.cpp Grid::~Grid"), ("initialization and finalization", "src/main.cpp main, src/mpi_scope_guard.cpp")],
     "The same random run with few and with many iterations, restarts and runs stopped by eight kinds of errors; the stand-ins count arrays, communicators and messages and check the life cycle, HDF5 and the kernel count what is open. ", "property-based testing with counted resources and injected faults")

prop("O12", "The number of ghost layers changes nothing in the domain",
     "Ghost cells are a device of the scheme: with any number of ghost layers (at least the two the scheme needs, at most the cells of a process) a run gives the same outputs, at the same iterations and times, with the same state in every cell of the domain and the same coordinates of its faces, for any geometry, mesh, boundary condition, gravity, scheme, process grid and moving grid. (The time step takes the ghost cells into account: where they are not copies of cells of the domain this is meant for the same time steps.)",
     ["inputs", "configurations", "histories"], "every input file and pair of numbers of ghost layers",
     "Unit tests use one number of ghost layers; an index with a 2 in place of the number of layers is right in all of them.",
     ["src/mesh/grid.cpp", "src/mesh/grid_factory.hpp", "src/boundary.cpp", "src/boundary_distribute.cpp", "src/main.cpp", "src/io/io.cpp", "src/moving_grid/moving_grid.cpp"],
     [("number of layers", "src/utils/param.cpp Nghost"), ("ranges with and without ghosts", "src/mesh/grid.cpp, src/mesh/range.hpp")],
     "Pairs of random runs of the same input with two numbers of ghost layers (2 to 5), on the same or another machine; outputs compared cell by cell. ", "property-based testing with a metamorphic relation between numbers of ghost layers")

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
        assert len(p["title"]) <= 80, p["title"]

NA = {}
checks, na = [], []
for p in P:
    if p["id"] in TABLE:
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 /verif/run.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 /verif/run.py %s --tier thorough" % p["id"],
            "technique": p["technique"], "level": "exploration",
            "level_note": p["level_note"] + STUBS,
        })
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
json.dump({
    "version": 1, "setup_cmd": "python3 /verif/run.py --setup", "checks": checks, "not_applicable": na,
    "notes": "All checks compile /repo's current sources against the stand-ins in /verif/stubs; see DESIGN.md.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
