"""Writes /verif/properties.jsonl (kept as a script so that the statements are readable and diffable)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, **kw):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update(kw)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": anchors})


p("C01", "Results do not depend on decomposition, rank placement or message timing",
  "For a given input, every field, grid coordinate, time and counter that a run writes is the same (up to floating-point summation rounding) whatever the number of processes, the process grid chosen, the order in which the MPI library numbers processes and the order and delay with which messages arrive. "
  "This holds for every dimension, geometry, gravity, boundary condition, reconstruction, Riemann solver and for the shipped problem setups, including uneven splits where process extents differ.",
  ["schedules", "configurations", "inputs"], "all process counts and process grids with at least as many cells per process as ghost layers, all rank orders, all message delays and interleavings, all inputs",
  "A unit test runs one process in one order; an off-by-one in the split, a swapped neighbour, a wrong tag or an unsynchronised corner only shows for particular process grids, remainders and timings.",
  ["src/mesh/grid.cpp", "src/boundary_distribute.cpp", "src/boundary_distribute.hpp", "src/main.cpp", "src/gravity/gravity.cpp", "src/broadcast.cpp"],
  [("split of the cells with remainder over the cartesian process grid", "src/mesh/grid.cpp mpi_decomposition"), ("dimension by dimension ghost exchange with corners", "src/boundary_distribute.cpp ghost_sync"), ("global reductions", "src/hydro/time_step.hpp, src/analysis/*.cpp, src/gravity/gravity.cpp")])

p("C02", "Compute kernels are order independent, race free and stay inside their arrays",
  "Every parallel computation gives the same result (up to summation rounding) for every order and grouping of its iterations, for every legal split of its reductions and prefix sums, and whether it runs at once or asynchronously until the next synchronisation. "
  "No iteration reads or writes what another iteration of the same computation writes, touches memory outside its arrays, or touches memory of the wrong side (host or device).",
  ["schedules", "configurations", "inputs"], "all iteration orders, reduction and scan groupings, asynchronous completions, all configurations",
  "Tests run on one backend with one order; a loop that accidentally depends on its iteration order passes serially and fails on a GPU.",
  ["src/hydro", "src/boundary.cpp", "src/gravity/gravity.cpp", "src/mesh/geometry.cpp", "src/analysis", "src/moving_grid/moving_grid.cpp"],
  [("cell kernels", "src/hydro/*.hpp"), ("prefix sum of the enclosed mass", "src/gravity/gravity.cpp make_internal_mass_gravity"), ("reductions", "src/hydro/time_step.hpp, src/analysis/*.cpp")])

p("C03", "Mirrored host/device arrays always show the last write",
  "For any sequence of read, write and discard accesses from host and device, an access sees exactly the values of the most recent write made on either side. "
  "Data is transferred only when the requested side is out of date and its content is going to be read, and never when both sides are the same memory or the previous content is discarded.",
  ["histories", "configurations", "schedules"], "all access sequences over both sides, all ranks and layouts of arrays, with and without distinct device memory, all asynchronous completions",
  "A test can check a few access sequences on the CPU backend where both sides are the same memory and a stale copy can never be observed.",
  ["src/dual_view/dual_view.hpp", "src/io/io.cpp", "src/boundary_distribute.cpp", "src/gravity/gravity.cpp", "src/main.cpp"],
  [("modified flags and synchronisation on access", "src/dual_view/dual_view.hpp")])

p("C04", "Mass, momentum, energy and scalars are conserved and scalars stay bounded",
  "On a periodic domain without sources the total mass, momentum (Cartesian), energy and amount of every passive scalar stay constant up to rounding over any number of steps, restarts and process counts; with reflecting walls on a uniform Cartesian grid mass, energy and scalars do. "
  "Passive scalar concentrations always stay within [0,1], and the initial mass and its change that a run reports are those of its data.",
  ["histories", "inputs", "configurations", "schedules"], "all closed initial states, all schemes and step sequences, all decompositions and restart points",
  "Conservation is a statement about every cell face of every step; a test of a single flux cannot see that two neighbours (possibly on two processes) used different fluxes for the same face.",
  ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/boundary_distribute.cpp", "src/analysis/integration.cpp", "src/main.cpp"],
  [("flux differences over cell faces", "src/hydro/godunov_scheme.hpp"), ("mass report", "src/analysis/integration.cpp, src/main.cpp")])

p("C05", "A restarted run continues the interrupted one on any number of processes",
  "A run restarted from any of its outputs, with any number of processes and any process grid, continues with the same time, iteration, output numbering, grid and fields, and goes on to produce the same later outputs as the run that was not interrupted. "
  "Outputs existing at the restart are not rewritten.",
  ["histories", "configurations", "crash_points", "schedules"], "all restart points, all process counts before and after, chains of restarts, all option combinations",
  "It relates two whole executions through the file system; unit tests have no run to interrupt.",
  ["src/io/io.cpp", "src/io/config.yaml.cpp", "src/main.cpp"],
  [("reading the state and the counters back", "src/io/io.cpp read_pdi"), ("file layout for writing and reading", "src/io/config.yaml.cpp"), ("restart branch", "src/main.cpp")])

p("C06", "Completed outputs survive a crash and incomplete ones are refused",
  "If the job is killed at any point, every output completed before is intact and unchanged and a restart from the latest one succeeds and continues the run. "
  "A restart from a file that is missing, torn, incomplete or of another grid size stops with an error and a failing exit code before any step is made; it never computes from partly read data.",
  ["crash_points", "fault_sequences", "histories"], "all kill points, all states an interrupted file write can leave, all restart files of the wrong shape",
  "A unit test cannot kill a parallel job between two writes; the damage depends on exactly where it dies.",
  ["src/io/io.cpp", "src/io/config.yaml.cpp", "src/io/io_hdf5.hpp", "src/main.cpp"],
  [("one new file per output", "src/io/io.cpp write_pdi"), ("shape checks before reading", "src/io/io_hdf5.hpp check_extent_dset")])

p("C07", "Each output holds the whole state and the index describes the outputs",
  "Every output file contains exactly the interior cells of every field of the whole domain in global position, the node coordinates with and without ghost nodes, the time, iteration, numbering, adiabatic index and build information, all from the same instant. "
  "The index file is well formed and lists exactly the outputs made since the start (or restart) with their file names, times, dimensions and all variables, each of which exists in the named file with that shape.",
  ["histories", "configurations", "schedules"], "all decompositions, dimensions, scalar counts, ghost widths, output sequences, with moving grids and restarts",
  "Placement of each process's block in the file depends on the decomposition; a test of one process cannot see a wrong offset or a stale time.",
  ["src/io/io.cpp", "src/io/config.yaml.cpp", "src/main.cpp"],
  [("dataset selection per process", "src/io/config.yaml.cpp"), ("index writer", "src/io/io.cpp XmlWriter")])

p("C08", "Outputs happen on schedule and the run ends when it should",
  "Outputs are made exactly at the requested iterations and, to rounding, exactly at the requested times, numbered consecutively, plus one at the start and one at the end. "
  "The run ends at the first of end time, iteration limit and wall-clock limit, never steps past the end time or an output time, always finishes in finitely many steps, and all processes take the same decision even if their clocks differ.",
  ["histories", "configurations", "schedules", "inputs"], "all combinations of frequencies, first output time, end time, limits, restart points, clock offsets, drifts and stalls",
  "The interplay of two schedules, the end of the run, restarts and skewed process clocks has far more histories than a test can list, and real clocks cannot be steered in a test.",
  ["src/main.cpp", "src/utils/param.cpp", "src/io/io.cpp"],
  [("schedule and limits in the main loop", "src/main.cpp"), ("shared wall-clock decision", "src/main.cpp MPI_Bcast")])

p("C09", "Processes never deadlock or diverge and failures end the whole job",
  "Under every message timing all processes make matching collective calls, the job makes progress until it ends, and at a normal end all communicators, files and memory are released. "
  "When any process fails (bad input, failed allocation, input/output error) the whole job ends promptly with a failing exit code and a message; no process is left waiting.",
  ["schedules", "fault_sequences", "configurations"], "all interleavings and delays, all single-process failures at any point, all configurations",
  "Deadlocks need a particular interleaving or a fault on one process of several.",
  ["src/main.cpp", "src/mpi_scope_guard.cpp", "src/boundary_distribute.cpp", "src/mesh/grid.cpp", "src/io/io.cpp", "src/gravity/gravity.cpp"],
  [("MPI lifetime", "src/mpi_scope_guard.cpp"), ("top-level error handling", "src/main.cpp"), ("communicators of the grid", "src/mesh/grid.cpp")])

p("C10", "An invalid internal energy anywhere stops the run at once",
  "If in any cell of any process the internal energy becomes negative or not a number, the run stops with an error and a failing exit code on all processes before making another step from it, after writing one diagnostic output of that state. "
  "No run with valid energies is stopped.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "all cells, processes, steps and kinds of invalid value, all decompositions and reduction orders",
  "The outcome depends on how a not-a-number travels through parallel reductions of any grouping and across processes.",
  ["src/analysis/internal_energy.cpp", "src/main.cpp"],
  [("global minimum of the internal energy", "src/analysis/internal_energy.cpp"), ("check before each step", "src/main.cpp")])

p("C11", "Failed input/output is reported, never silently ignored",
  "When opening, creating, reading or writing an output or restart file or its metadata fails on any process at any time, the job ends with an error message and a failing exit code instead of continuing, and does not report normal completion. "
  "Handles opened before the failure are closed, and files not being written are unaffected.",
  ["fault_sequences", "crash_points", "schedules"], "every input/output call on the field output and restart path, failing at any occurrence on any process",
  "Unit tests have a working disk; each call has its own failure branch that ordinary runs never take.",
  ["src/io/io.cpp", "src/io/io_hdf5.hpp", "src/main.cpp"],
  [("handle wrapper", "src/io/io_hdf5.hpp"), ("metadata and extent checks", "src/io/io.cpp")])

p("C12", "Ghost cells hold neighbour data and the configured boundary values",
  "After every update all ghost cells, including edges and corners, hold the values of the neighbouring interior cells of the (periodic) global domain or, at the domain border, the values of the configured condition of that face (zero gradient, mirror with reversed normal momentum, user defined). "
  "Where faces meet, the face with the highest configured priority decides; without a priority the faces are applied in the natural order, and an incomplete or contradictory priority list is rejected.",
  ["configurations", "schedules", "inputs", "histories"], "all boundary combinations, all priority permutations, ghost widths, dimensions, decompositions",
  "The corner values depend on the product of conditions, order, dimension and decomposition, thousands of cases that a test samples a handful of.",
  ["src/boundary.cpp", "src/boundary.hpp", "src/boundary_distribute.cpp", "src/boundary_distribute.hpp", "src/boundary_factory.hpp", "src/main.cpp"],
  [("ghost exchange", "src/boundary_distribute.cpp ghost_sync"), ("order from the priority list", "src/boundary_distribute.cpp generate_order"), ("conditions", "src/boundary.cpp")])

p("C13", "All processes advance by the same stable time step",
  "Every step uses the same time increment on all processes, equal to the configured fraction of the smallest signal crossing time over all cells of the global domain (ghost cells included), shortened only to land on an output time or the end time. "
  "Simulated time increases strictly at every step.",
  ["inputs", "configurations", "schedules", "histories"], "all states, geometries, decompositions, reduction orders, cell positions of the limiting cell",
  "The limiting cell may sit on any process and the minimum goes through a kernel reduction and a message reduction.",
  ["src/hydro/time_step.hpp", "src/main.cpp"],
  [("inverse time step reduction", "src/hydro/time_step.hpp"), ("clipping", "src/main.cpp")])

p("C14", "Every process reads the same, complete configuration",
  "The configuration seen by the solver depends only on the bytes of the input file (sections, keys without regard to case, continuation lines, comments, typed values and defaults), not on how the operating system delivers them, and is the same on all processes. "
  "An unreadable, failing or syntactically wrong file stops the run with an error naming the problem or the line; it is never taken as a shorter or empty configuration.",
  ["inputs", "fault_sequences", "schedules"], "all file contents, all splits of the reads, read errors at any point on any process",
  "Short reads and read errors do not occur in tests, and the line based parser has many interacting forms.",
  ["vendor/inih/src/ini.c", "vendor/inih/src/INIReader.cpp", "src/utils/param.cpp"],
  [("line parser", "vendor/inih/src/ini.c"), ("typed access", "vendor/inih/src/INIReader.cpp"), ("mapping to solver parameters", "src/utils/param.cpp")])

p("C15", "Shifting the grid moves data and coordinates together",
  "When the grid is shifted by one cell, every interior cell takes the conserved values of its outer neighbour, also across process borders, all node coordinates move by one cell with the outermost cell extrapolated in the same ratio, and outer ghost cells follow the boundary condition. "
  "All processes and later outputs agree on the new coordinates, and beyond the configured maximum radius the grid stops shifting and the outer boundary becomes zero gradient.",
  ["histories", "configurations", "schedules"], "all shift sequences, decompositions along the shifted direction, grids, limits, restarts after shifts",
  "Shifting couples host coordinates, device fields, ghost exchange and outputs over several steps.",
  ["src/moving_grid/moving_grid.cpp", "src/main.cpp", "src/mesh/grid.cpp"],
  [("shift of fields and nodes", "src/moving_grid/moving_grid.cpp"), ("shift branch of the loop", "src/main.cpp")])

p("C16", "Each step is the configured second-order Godunov update of the previous state",
  "Every cell value after a step equals the MUSCL-Hancock update (configured limiter, half-step prediction, configured Riemann solver, geometric, gravity and user sources, optional pressure fix) of the values before it on the actual grid. "
  "A uniform state at rest without gravity stays unchanged in any geometry.",
  ["inputs", "configurations", "histories", "schedules"], "all states, limiters, solvers, equations of state, geometries, dimensions, grids (uniform or not), scalar counts, decompositions",
  "The update is a long formula with many configuration branches; a test fixes one state and one branch and cannot cover the product with decompositions and schedules.",
  ["src/hydro", "src/thermodynamics", "src/mesh/geometry.cpp", "src/user_step", "src/main.cpp"],
  [("reconstruction", "src/hydro/limited_linear_reconstruction.hpp"), ("half step", "src/hydro/extrapolation_reconstruction.hpp"), ("fluxes and sources", "src/hydro/godunov_scheme.hpp"), ("pressure fix", "src/hydro/pressure_fix.hpp")])

p("C17", "The gravity applied is the field configured, up to date and the same everywhere",
  "The acceleration in every cell is the configured uniform vector, the point-mass field of the central mass at the cell centre, or the field of the central mass plus the mass enclosed by the cell centre summed over all angles and all processes, recomputed from the current density and grid at every step. "
  "A configuration that would split the radial direction of the enclosed-mass field over processes is rejected.",
  ["inputs", "configurations", "schedules", "histories"], "all density fields, grids, decompositions in angle, scan and reduction orders, shifted grids",
  "The enclosed mass goes through shell reductions, message reductions over part of the processes and a parallel prefix sum, whose groupings a test does not vary.",
  ["src/gravity/gravity.cpp", "src/gravity/gravity.hpp", "src/main.cpp"],
  [("shell sums and prefix sum", "src/gravity/gravity.cpp"), ("refresh in the loop", "src/main.cpp make_gravity")])

p("C18", "Thermodynamic fields of every output agree with the equation of state",
  "In every cell of every output the density, velocity, pressure, temperature and total energy satisfy the configured equation of state (ideal gas, or gas plus radiation) to solver tolerance, whatever the history of steps, restarts and grid shifts. "
  "Pressure and temperature are positive wherever the internal energy is.",
  ["inputs", "histories", "configurations"], "all states over many decades of density and temperature, all histories and decompositions",
  "The conversion for gas plus radiation is an iterative solve whose convergence depends on the regime, and the fields come from different steps of the pipeline that must be of the same instant.",
  ["src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/rad_gas.hpp", "src/hydro/array_conversion.hpp", "src/analysis/temperature.hpp", "src/main.cpp"],
  [("conversions", "src/thermodynamics/*.hpp"), ("field conversion kernels", "src/hydro/array_conversion.hpp")])

p("C19", "Shipped problems start from, and advance with, the state prescribed",
  "The first output of each of the problems in src/setups holds in every cell the state that its formulas give for the parameters of the input file and the position of the cell in the global domain, "
  "whatever the grid, the ghost width and the decomposition; random perturbations are the same on all processes. The first step is the configured update of that state, with the problem's own boundary "
  "conditions supplying their prescribed atmosphere and the grid moving exactly when the outermost cells have reached the configured speed. The shipped inputs run.",
  ["inputs", "configurations", "schedules"], "all 16 problems, all parameter values, grids, ghost widths, process grids and random draws",
  "No test runs the problems. Whether a cell is placed by its local or its global index, or a random number is drawn once or per process, shows only on particular decompositions, and a parameter that is read but not used only on values other than the shipped one.",
  ["src/setups", "src/default_boundary_setup.hpp", "src/default_grid_setup.hpp", "src/main.cpp", "inputs"],
  [("initial states", "src/setups/*/setup.hpp InitializationSetup::execute"), ("problem boundary conditions", "src/setups/{eq_hydro_sphe,stratified_atm}/setup.hpp"), ("criterion of the moving grid", "src/setups/v1d/setup.hpp UserShiftCriterion")])

p("C20", "Equivalent formulations of a problem give the same results",
  "A problem posed in another equivalent way - mirrored in a direction, with Cartesian axes exchanged, displaced along a direction in which nothing changes, with a uniform direction added or removed, in other units of length, "
  "time and mass, with more, renumbered or complementary passive scalars, or with more ghost cells - ends with the correspondingly transformed grid, time steps and fields, up to rounding. No direction, side, unit or origin is privileged by the schemes, "
  "gravity, geometry, boundary conditions or process grid.",
  ["inputs", "configurations", "schedules"], "all pairs of equivalent problems, all schemes, equations of state, geometries and process grids",
  "Unit tests compare with stored numbers of one orientation. A term that is missing in one direction or sign, or a constant carrying a hidden unit, is consistent with itself and shows only when two formulations are compared.",
  ["src/hydro", "src/mesh", "src/gravity", "src/thermodynamics", "src/boundary.cpp"],
  [("fluxes and source terms", "src/hydro/*.hpp"), ("geometry", "src/mesh/geometry.cpp"), ("boundary conditions", "src/boundary.cpp")])

p("C21", "The scheme is consistent with the Euler equations on the grid's coordinates",
  "On smooth states the change of mass, momentum, total energy and scalars over a time step divided by the step tends, as the cells are refined, to the right-hand side of the Euler equations with gravity in the coordinates "
  "of the grid (Cartesian or spherical, uniform or stretched): at first order at least, at second order with the central slopes, in each direction, for each solver, limiter and equation of state, "
  "with and without the pressure fix, inside the domain and up to its boundaries.",
  ["inputs", "configurations", "schedules"], "all smooth states, grids, geometries, schemes, equations of state and process grids",
  "The tests compare with exact shock tubes in one dimension. A wrong metric factor or a missing source term converges to the solution of other equations; it shows only against the equations, on curved or multi-dimensional states.",
  ["src/hydro", "src/mesh", "src/gravity", "src/thermodynamics"],
  [("fluxes and geometric source terms", "src/hydro/godunov_scheme.hpp"), ("metric", "src/mesh/geometry.cpp"), ("pressure fix", "src/hydro/pressure_fix.hpp"), ("gravity", "src/gravity")])

p("C22", "The log tells a run's configuration, progress and end as they are",
  "The log of a run tells, once and from one process, the configuration in use (cells, ghosts, process grid, extent of the telling process, setup, equation of state, geometry, gravity, solver and options), then in order every restart, output and grid shift "
  "with its time, iteration, percentage, file number or radius. At the normal end, and only then, it tells the final time and iteration, the performance of this job (cell updates of its own steps over the wall-clock time they took), "
  "the initial mass and its change, and '--- End ---'; a run ended by an error tells time and iteration of the error instead.",
  ["inputs", "configurations", "schedules", "histories", "fault_sequences"], "all configurations, process grids, schedules, restarts, grid shifts, stalls of any process and ends",
  "No test looks at the log. What it tells depends on the history (restarts, shifts, the way the run ends) and on the wall clock of the processes, which a test does not control.",
  ["src/main.cpp", "src/io/io.cpp", "src/mesh/grid.cpp", "src/utils/print_info.hpp"],
  [("end of the run", "src/main.cpp after the time loop"), ("status of an output", "src/io/io.cpp print_simulation_status"), ("configuration", "src/main.cpp, src/mesh/grid.cpp print_grid")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
