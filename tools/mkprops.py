#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (authoring helper; the JSONL file is what counts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "alsfvm/src/"; I = "alsfvm/include/alsfvm/"; U = "alsuq/src/"
prop("C01", "Periodic runs conserve every conserved variable",
 "In a simulation with periodic boundaries, the sum over all cells of every conserved variable stays equal to its initial value up to rounding after every time step. This holds for every equation, numerical flux, reconstruction, time integrator and diffusion operator, in one, two and three dimensions, with any cell aspect ratio and any distribution over MPI processes.",
 ["inputs", "configurations", "histories", "schedules"],
 "all initial data, all supported equation/flux/reconstruction/integrator/diffusion combinations, grids, step counts and MPI decompositions",
 "The unit tests look at single operators on one mesh; none sums the conserved variables along a run, across processes or for anisotropic cells, and discontinuous data over many steps is where a mismatched left/right flux contribution shows.",
 [S+"numflux/NumericalFluxCPU.cpp", S+"simulator/ConservedSystem.cpp", S+"simulator/Simulator.cpp", S+"diffusion/TecnoDiffusionCPU.cpp", S+"integrator/", S+"mpi/CartesianCellExchanger.cpp"],
 [("flux differences added with opposite signs to the two neighbouring cells", S+"numflux/NumericalFluxCPU.cpp"),
  ("periodic ghost fill / halo exchange between substeps", S+"boundary/BoundaryCPU.cpp, "+S+"mpi/CartesianCellExchanger.cpp"),
  ("inner region and side strips computed separately and each cell exactly once", S+"simulator/ConservedSystem.cpp")],
 [("conserved volume", "cell averages with ghost cells, after every step", S+"simulator/Simulator.cpp")],
 ["every time step, through a writer plug-in loaded by the production executable"])
prop("C02", "Runs commute with the symmetries of the grid",
 "A uniform state stays uniform to rounding under every scheme. For periodic runs, shifting the initial data by whole cells shifts the whole solution history by the same cells, exchanging two axes of the problem exchanges the history, and for gas dynamics and the Burgers equation mirroring an axis (with the normal velocity, or the sign of the solution, reversed) mirrors it. Data depending on one coordinate only evolves in two or three dimensions exactly like the one-dimensional run with the same time steps.",
 ["inputs", "configurations", "histories"],
 "all initial data and grids, every direction, all supported schemes for which the continuous equation has the symmetry",
 "Direction-dependent code (per-axis fluxes, ghost fills, reconstructions, process boundaries) is tested in at most one direction and one shape; a symmetry has to hold for every pair of related inputs, and the tests hold no pairs.",
 [S+"numflux/NumericalFluxCPU.cpp", S+"reconstruction/", S+"boundary/BoundaryCPU.cpp", I+"equation/", I+"numflux/euler/", S+"integrator/", S+"simulator/ConservedSystem.cpp"],
 [("direction loop over x, y and z fluxes", S+"numflux/NumericalFluxCPU.cpp"), ("per-direction reconstruction", S+"reconstruction/ReconstructionCPU.cpp, ENOCPU.cpp, WENOCPU.cpp"), ("rotation of velocity components by direction", I+"equation/euler/")],
 None, ["every time step, through a writer plug-in loaded by the production executable"])
prop("C03", "Each named numerical flux computes the flux its name denotes",
 "For every equation, a selected numerical flux returns, for any two admissible reconstructed states at an interface, exactly the published two-point (or high-order entropy-conservative multi-point) flux of that name: central, Rusanov, Godunov, Roe, upwind, HLL, three-wave HLL and the TeCNO entropy-conservative fluxes. In particular each is consistent (equal states give the physical flux), uses the direction asked for, and the update of every interior cell is the difference of the two interface fluxes in each active direction divided by the cell width.",
 ["inputs", "configurations"],
 "all admissible pairs (or stencils) of states including strong shocks, transonic, supersonic, near-vacuum and equal states, in every direction, for every registered flux",
 "The tests check a few fluxes on one or two states; upwinding decisions, sonic points, equal-state limits of logarithmic means and direction handling need inputs from every branch.",
 [I+"numflux/", S+"numflux/NumericalFluxCPU.cpp", S+"numflux/NumericalFluxFactory.cpp"],
 [("flux formulas", I+"numflux/euler/, burgers/, cubic/, buckleyleverett/, linear/"), ("flux loop and accumulation of differences", S+"numflux/NumericalFluxCPU.cpp"), ("name to flux table", S+"numflux/NumericalFluxFactory.cpp")],
 None, ["numerical flux objects obtained from the public factory", "first-order forward Euler steps of production runs"])
prop("C04", "Each named reconstruction produces the interface values it is defined by",
 "For every cell the left and right interface values are exactly those of the named method: the cell value itself (none), the smoothest-stencil polynomial of the requested order (eno2, eno3, eno4), the published weighted stencils (weno2, weno3), or the limited linear profile (mc, minmod). Consequently linear or higher polynomials up to the method's degree are reproduced, reconstruction is local to its stencil and covers every cell whose interface values are used, limited values stay within the neighbours' range, and for gas dynamics the positivity-preserving variants return positive density and pressure.",
 ["inputs", "configurations"],
 "all cell data (smooth, discontinuous, constant, extreme magnitude), stencil choices, directions, dimensions and grid shapes",
 "The tests reconstruct a handful of smooth functions; which of the adaptive stencils is chosen, tie cases, limiter branches and the boundary strips of the computed range depend on the data.",
 [S+"reconstruction/", I+"reconstruction/", S+"reconstruction/ReconstructionFactory.cpp"],
 [("stencil selection by divided differences", S+"reconstruction/ENOCPU.cpp"), ("smoothness weights", I+"reconstruction/WENO2.hpp, "+S+"reconstruction/WENOCPU.cpp"), ("limiters", I+"reconstruction/MC.hpp, MinMod")],
 None, ["reconstruction objects obtained from the public factory"])
prop("C05", "Each named time integrator advances by exactly its scheme",
 "One time step applies exactly the named scheme (forward Euler, the second- and third-order strong-stability-preserving Runge-Kutta schemes, the classical fourth-order Runge-Kutta scheme) to the semi-discrete system: every stage evaluates the operator on the right combination of earlier stages with freshly filled ghost cells, every coordinate direction is weighted by its own cell width, and all stages use the same step length. The schemes therefore have their nominal order for any right-hand side.",
 ["inputs", "configurations", "histories"],
 "all right-hand sides, step lengths, cell widths per direction, dimensions and numbers of steps",
 "Tests integrate one scalar ODE per scheme on square cells; wrong stage combinations on anisotropic cells, stale ghost cells between stages or reused buffers from the previous step show only with other systems and several steps.",
 [S+"integrator/", S+"simulator/Simulator.cpp", S+"simulator/ConservedSystem.cpp"],
 [("stage combination", S+"integrator/RungeKutta2.cpp, RungeKutta3.cpp, RungeKutta4.cpp, ForwardEuler.cpp"), ("boundary fill after each stage", S+"simulator/Simulator.cpp")],
 None, ["integrator objects from the public factory driving a recorded right-hand side", "per-step histories of production runs"])
prop("C06", "Time steps are CFL-limited, positive, global, and the run reaches its end time",
 "Every time step length is positive and finite (whenever some wave speed is nonzero) and at most the Courant number divided by the sum over directions of the largest wave speed anywhere in the global domain, boundary cells included, over that direction's cell width; it is shorter only to land on a requested output time or time window. All MPI processes take identical steps, time increases strictly, and the run stops at the first step whose time is not below the end time. Unless requested otherwise the Courant number is the documented default for the reconstruction.",
 ["inputs", "configurations", "histories", "schedules"],
 "all initial data, equations, dimensions, aspect ratios, Courant numbers, end times, output requests and MPI decompositions",
 "Tests compute one time step; the bound over directions and over processes, and the interplay with output times, are history properties of full runs.",
 [S+"simulator/Simulator.cpp", S+"integrator/Integrator.cpp", S+"simulator/TimestepInformation.cpp", S+"equation/CPUCellComputer.cpp", S+"simulator/ConservedSystem.cpp", S+"config/SimulatorSetup.cpp"],
 [("global maximum wave speed", S+"integrator/Integrator.cpp and its wave speed adjusters"), ("time step shortened by writers", S+"io/FixedIntervalWriter.cpp, CoarseGrainingIntervalWriter.cpp")],
 [("current time and step number", "monotone clock of the run", S+"simulator/TimestepInformation")], ["every time step, through a writer plug-in"])
prop("C07", "Every requested save happens exactly once at its requested time",
 "A run that asks for N regularly spaced saves (with or without the initial state) produces exactly those saves, numbered consecutively, each at its requested time up to rounding, and always including the end time. Coarse-grained outputs (a number of non-overlapping snapshots that each cover a time window inside the run) produce exactly the requested snapshots, each the average over its window of the computed states in which every state stands for the time since the previous one. This holds for solution writers, functionals, time-integrated functionals and statistics alike, whatever the mixture of output requests, end times and time step sizes, and no two requests disturb each other.",
 ["configurations", "histories"],
 "all end times, save counts, mixtures of writers, functionals and statistics with different save counts, coarse-graining settings, and time step sequences (including runs of fewer steps than saves)",
 "Whether accumulated times meet a multiple of the interval depends on rounding of the whole time step history; the tests use one interval and one step size.",
 [S+"io/FixedIntervalWriter.cpp", S+"io/TimeIntegratedWriter.cpp", S+"io/CoarseGrainingIntervalWriter.cpp", S+"functional/", U+"stats/FixedIntervalStatistics.cpp", U+"stats/StatisticsHelper.cpp", S+"config/SimulatorSetup.cpp"],
 [("save interval counters", S+"io/FixedIntervalWriter.cpp"), ("time step adjusters", S+"io/FixedIntervalWriter.cpp"), ("snapshots keyed by time", U+"stats/StatisticsHelper.cpp")],
 None, ["set of output files with their attributes, and the per-step log"])
prop("C08", "Output files hold exactly the state computed at that step",
 "Each saved file contains, for every conserved variable of the equation and no ghost cells, exactly the values held in memory at that step, at the position of that cell in the global grid, together with the right time, step and grid attributes. This holds for serial and parallel writing, every number of processes and every grid shape. Python writers and plug-in writers see the same data, are told their position among the processes, and are told when the run ends.",
 ["inputs", "configurations", "schedules"],
 "all grid shapes and dimensions, process layouts, equations, writers",
 "The tests write one small square array; transposed layouts, per-process offsets and odd shapes are exactly what they do not vary.",
 [S+"io/NetCDFWriter.cpp", S+"io/NetCDFMPIWriter.cpp", S+"io/HDF5Writer.cpp", S+"io/PythonScript.cpp", S+"io/MpiWriterFactory.cpp", I+"io/netcdf_utils.hpp"],
 [("copy of the interior cells", I+"volume/volume_foreach.hpp, "+S+"volume/Volume.cpp"), ("global offset and size per process", S+"io/NetCDFMPIWriter.cpp")],
 None, ["output files compared with the in-memory state recorded by a writer plug-in at the same step"])
prop("C09", "Ghost cells always satisfy the configured boundary condition",
 "Whenever the right-hand side is evaluated and whenever the solution is handed to an output, every ghost cell adjoining the domain along an axis holds the value the boundary condition prescribes: the cell one period away for periodic boundaries, the mirrored interior cell for Neumann boundaries, in every direction, at every ghost depth, and only in active dimensions; interior cells are never changed by filling ghost cells. With several processes the update of every cell uses the current values of the neighbouring process' cells.",
 ["inputs", "configurations", "histories", "schedules"],
 "all data, grid shapes, ghost depths, dimensions, boundary types and process layouts",
 "Tests fill small arrays of one shape; which cell feeds which ghost depends on depth, direction and layout.",
 [S+"boundary/", I+"boundary/", S+"mpi/CartesianCellExchanger.cpp", S+"simulator/Simulator.cpp"],
 [("ghost fill", I+"boundary/Periodic.hpp, Neumann.hpp, "+S+"boundary/BoundaryCPU.cpp"), ("halo exchange", S+"mpi/CartesianCellExchanger.cpp")],
 None, ["every time step through a writer plug-in (ghost cells included)", "boundary objects from the public factory"])
prop("C10", "Results do not depend on the MPI decomposition or message timing",
 "The global solution at every step, the time steps and all output files of a run are identical (up to rounding of global reductions) for every admissible number and arrangement of processes and equal the single-process run, whatever the order and delay in which messages are delivered. The processes' subdomains tile the global grid exactly once and every run terminates.",
 ["schedules", "configurations", "inputs"],
 "all process layouts in x, y and z, grid shapes, boundary types, schemes and message delivery orders",
 "The MPI tests run one layout and the timing the machine happens to give; overlap of communication and computation is only wrong under particular delays.",
 [S+"mpi/", S+"simulator/ConservedSystem.cpp", I+"mpi/", "alsvinncli/src/main.cpp"],
 [("asynchronous halo exchange on a separate thread", S+"simulator/ConservedSystem.cpp"), ("message tags, buffers and datatypes", S+"mpi/CartesianCellExchanger.cpp, MpiIndexType.cpp"), ("domain decomposition", S+"mpi/domain/CartesianDecomposition.cpp")],
 None, ["per-process per-step logs from a writer plug-in, with message delays injected at the MPI profiling interface"])
prop("C11", "Results do not depend on thread count and computation is free of data races",
 "For a fixed configuration the solution history is bitwise identical for any number of threads and on every repetition, and no two threads ever access the same memory location without synchronisation when one of them writes, including between the communication thread and the computation.",
 ["schedules", "configurations"],
 "all thread counts, schedules, schemes, dimensions and process counts",
 "The tests run with two threads and compare nothing between thread counts; races appear only under particular schedules and are invisible to value checks.",
 [S+"numflux/NumericalFluxCPU.cpp", S+"equation/CPUCellComputer.cpp", S+"reconstruction/", S+"simulator/ConservedSystem.cpp", S+"memory/HostMemory.cpp", "alsutils/src/timer/", "alsutils/src/mpi/"],
 [("parallel loops over cells", S+"numflux/NumericalFluxCPU.cpp and others"), ("exchange thread joined before side strips", S+"simulator/ConservedSystem.cpp")],
 None, ["per-step logs for different thread counts", "ThreadSanitizer reports of the whole program"])
prop("C12", "No configuration makes the program read or write invalid memory",
 "For every configuration accepted by the command line tools, the program never accesses memory out of bounds, after release or uninitialised in a way that reaches results, never leaks or frees twice solution storage per time step, and never executes undefined behaviour; for configurations it does not accept it terminates with an error rather than crashing.",
 ["inputs", "configurations", "schedules"],
 "all schemes, dimensions, grid shapes (including grids smaller than or equal to the stencil), writers, functionals, statistics and process counts",
 "An out-of-bounds read of a neighbouring array normally gives plausible numbers, so no assertion on values sees it; the tests run without sanitizers on few shapes.",
 ["alsfvm/", "alsuq/", "alsutils/"],
 [("index arithmetic", I+"volume/, "+I+"grid/"), ("ghost sizes", S+"config/SimulatorSetup.cpp"), ("buffers", S+"memory/HostMemory.cpp")],
 None, ["AddressSanitizer and UndefinedBehaviorSanitizer reports of whole-program runs"])
prop("C13", "Invalid states stop the run with an error instead of being continued or saved",
 "When a time step produces a non-finite value in any cell or, for gas dynamics, a clearly non-positive density or pressure, the run stops with a failure status at that step and the invalid state is not written by the process that holds the cell nor followed by any later state; this also holds when it happens on a single MPI process or in a single sample, where all processes terminate. A run whose states all stay clearly valid is never stopped for this reason.",
 ["inputs", "configurations", "fault_sequences", "histories"],
 "all equations, positions of the bad cell, kinds of invalidity, processes and samples in which it occurs",
 "The tests check one bad cell in one array; the whole chain up to the exit status, on one process of several, is not run.",
 [S+"simulator/Simulator.cpp", S+"equation/CPUCellComputer.cpp", "alsvinncli/src/main.cpp", "alsuqcli/src/main.cpp", I+"equation/"],
 [("constraint check after each step", S+"equation/CPUCellComputer.cpp"), ("error to exit status", "alsvinncli/src/main.cpp, alsuqcli/src/main.cpp")],
 None, ["exit status, output files and per-step log of production runs"])
prop("C14", "Bad configurations and failed output are reported as failures",
 "A configuration naming an unknown or unsupported equation, flux, reconstruction, integrator, boundary, diffusion, platform, functional, statistic, writer or option of the solver, or an impossible parallel split, missing file, failing initial-data script or unwritable output, ends with a non-zero exit status, an explanation on the error stream and without leaving a completed-run report. The same configuration without that fault, with or without comments, succeeds with status zero and with all requested output on disk.",
 ["fault_sequences", "configurations"],
 "each configuration element replaced or removed in turn, each required file missing, each output unwritable, on one or several processes",
 "Tests exercise accepted configurations; rejection paths and I/O faults are not driven at all.",
 [S+"config/", U+"config/Setup.cpp", "alsvinncli/src/main.cpp", "alsuqcli/src/main.cpp", I+"io/netcdf_utils.hpp", I+"io/parallel_netcdf_utils.hpp", "alsutils/"],
 [("factories reject unknown names", S+"*/*Factory.cpp"), ("error codes of I/O libraries checked", I+"io/netcdf_utils.hpp, "+S+"io/")],
 None, ["exit status, streams and files of production runs under injected faults"])
prop("C15", "Initial data is evaluated at every global cell midpoint",
 "After initialisation each cell of the global grid holds the conserved variables corresponding to the user's initial-data code evaluated at that cell's midpoint in physical coordinates with the given equation, adiabatic constant and sample parameters (which win over names of the math module). This holds for both styles of initial-data code (per cell, which sees x, y, z and the cell's indices in the part of the grid of its process, and whole array, which is given the size and bounds of that part), every dimension, domain, equation and MPI decomposition.",
 ["inputs", "configurations"],
 "all domains, resolutions, dimensions, equations, parameter values (scalar and vector), both script styles, process layouts",
 "Tests use the unit square with one formula and one process; offsets, half-cell shifts and per-process origins need other domains and layouts.",
 [S+"init/PythonInitialData.cpp", S+"init/", S+"simulator/Simulator.cpp", S+"config/SimulatorSetup.cpp", I+"grid/Grid.hpp"],
 [("cell midpoints and indices", S+"init/PythonInitialData.cpp, "+S+"grid/Grid.cpp"), ("primitive to conserved conversion", S+"equation/CPUCellComputer.cpp")],
 None, ["initial state recorded by a writer plug-in on every process"])
prop("C16", "Numerical diffusion equals its definition and never creates entropy",
 "The entropy-variable diffusion operators add at each interface one half times the named diffusion matrix (Roe: R|L|R^T, Rusanov: the largest |eigenvalue| times R R^T, with R the entropy-scaled eigenvectors of the Jacobian at the mean state) applied to the jump of the reconstructed entropy variables, in every direction and with opposite signs for the two neighbours. Hence, combined with an entropy-conservative flux, the semi-discrete rate of the total entropy is never positive for periodic data, and without diffusion the entropy-conservative flux neither creates nor destroys entropy.",
 ["inputs", "configurations", "histories"],
 "all admissible data, equations, dimensions, directions and reconstructions of entropy variables",
 "Entropy is a global functional of a nonlinear update; the tests check matrices at one state.",
 [S+"diffusion/TecnoDiffusionCPU.cpp", S+"diffusion/", I+"diffusion/", I+"numflux/euler/Tecno1.hpp", I+"equation/"],
 [("diffusion matrix", I+"diffusion/RoeMatrix.hpp, RusanovMatrix.hpp"), ("reconstruction of entropy variables", S+"reconstruction/"), ("entropy variables", I+"equation/")],
 None, ["diffusion and flux objects from the public factories; per-step histories"])
prop("C17", "Every requested sample is simulated exactly once with reproducible parameters",
 "An uncertainty-quantification run simulates exactly the sample numbers start to start plus count minus one, each once. The parameters of a sample depend only on the sample number and the configured distribution: they are the same for every process layout and on every repetition, differ between samples, are independent across parameters, and follow the configured distribution.",
 ["configurations", "schedules", "inputs"],
 "all sample counts, start numbers, process layouts (over samples and space), parameter sets and generators",
 "Tests generate a few numbers in one process; agreement between layouts and absence of duplicated or skipped samples are relations between whole runs.",
 [U+"config/Setup.cpp", U+"generator/", U+"distribution/", U+"samples/SampleGenerator.cpp", U+"mpi/SimpleLoadBalancer.cpp", U+"run/Runner.cpp"],
 [("sample partition", U+"mpi/SimpleLoadBalancer.cpp"), ("random stream", U+"generator/STLMersenne.cpp"), ("distribution transform", U+"distribution/")],
 None, ["parameters recorded inside each sample's run", "generator and distribution objects"])
prop("C18", "Statistics equal the statistics of the individual samples for every layout",
 "Every statistic written (mean, variance, one-point moments, bounded-variation norms, structure functions and correlations, and statistics of functionals) equals, up to rounding, the same statistic computed offline from the individual sample solutions at that time. The result does not depend on how samples are distributed over processes; for the statistics that act on each cell alone (mean, variance, moments) it does not depend on a split of the grid over processes either, while reduced statistics hold one value per part of the grid.",
 ["inputs", "configurations", "schedules"],
 "all statistics and their parameters, sample counts, distributions, layouts and snapshot times",
 "Tests evaluate a statistic on constant data or one sample; accumulation over samples, reduction over processes and snapshot matching are never compared with an independent computation.",
 [U+"stats/", U+"run/Runner.cpp"],
 [("accumulation per sample", U+"stats/*.cpp"), ("reduction over processes and division by the sample count", U+"run/Runner.cpp, "+U+"stats/StatisticsHelper.cpp"), ("finalisation", U+"stats/MeanVariance.cpp")],
 None, ["statistics files compared with per-sample files of the same run"])
prop("C19", "Functionals equal their defining integral of the solution",
 "Each functional output (identity, bounded variation, Legendre coefficients, pointwise Legendre, logarithmic entropy, moments, structure functions) and each time-integrated functional equals the defining sum, or the integral over its time window to within one step, evaluated on the actual solution history, independent of other outputs. The functionals that act on each cell alone (identity, moments, pointwise Legendre) do not depend on the number of processes; the reduced ones hold one value per process, evaluated on its part of the grid.",
 ["inputs", "configurations", "histories"],
 "all functionals and parameters, dimensions, grid shapes, equations and process layouts",
 "Tests evaluate few functionals on constants; time integration over an adaptive step history, parameters and decomposition are not covered.",
 [S+"functional/", I+"functional/"],
 [("spatial sums", S+"functional/*.cpp"), ("time weights", S+"functional/TimeIntegrationFunctional.cpp"), ("reduction", S+"functional/IntervalFunctionalWriter.cpp")],
 None, ["functional files compared with values recomputed from the per-step log"])
prop("C20", "Monotone scalar schemes obey maximum principle, TVD and entropy decay",
 "For scalar equations with a monotone flux (on data where the flux function is convex or concave as the flux formula assumes), no reconstruction and forward Euler or a strong-stability-preserving integrator under the documented Courant number, the solution never leaves the range of its initial values and its total variation (in one dimension) never increases. With Godunov, Rusanov and upwind fluxes every convex entropy's total never increases with periodic boundaries. Limited second-order reconstructions (mc, minmod) do not increase range or total variation in one dimension either.",
 ["inputs", "configurations", "histories"],
 "all initial data, scalar equations, monotone fluxes, Courant numbers up to the limit, dimensions",
 "It is an inequality over whole histories from arbitrary data; tests have smooth data and few steps.",
 [I+"numflux/burgers/", I+"numflux/buckleyleverett/", I+"numflux/cubic/", I+"numflux/linear/", S+"integrator/", S+"simulator/Simulator.cpp", I+"reconstruction/"],
 [("monotone fluxes", I+"numflux/"), ("CFL condition", S+"integrator/Integrator.cpp")],
 None, ["every time step, through a writer plug-in"])
prop("C21", "Computed solutions converge to the exact solution at the nominal rate",
 "As the grid is refined, the computed solution converges to the exact (entropy) solution of the configured equation: for smooth data at the nominal order of the flux, reconstruction and integrator (at most second order for nonlinear multi-dimensional problems with reconstructed cell averages), for Riemann problems with first-order schemes to the exact wave structure with the right speeds and states, in every direction and dimension. At a fixed grid the error decreases with the time step at the order of the integrator.",
 ["inputs", "configurations"],
 "all equations, schemes, directions, Riemann data and smooth data",
 "A single resolution cannot show an order, and the tests compare with no exact solutions.",
 ["alsfvm/"],
 [("whole solver", S+"simulator/Simulator.cpp"), ("equation definitions", I+"equation/")],
 None, ["output of production runs against exact solutions on several grids"])
prop("C22", "Arithmetic on solution arrays matches its mathematical definition",
 "Every operation on solution arrays (addition, subtraction, multiplication, division, scalar operations, linear combinations, powers, norms, total variation, copying with and without ghost cells, iteration and indexing) gives elementwise exactly its definition for any size, dimension and ghost depth, changes nothing else, and copies are independent of their source.",
 ["inputs", "programs"],
 "all sequences of operations on arrays of all shapes, ghost depths and contents",
 "Tests apply single operations to one size with constant content; aliasing and shape-dependent indexing need sequences and irregular shapes.",
 [S+"memory/", I+"memory/", S+"volume/", I+"volume/"],
 [("elementwise kernels", S+"memory/HostMemory.cpp, Memory.cpp"), ("volumes of named memories", S+"volume/Volume.cpp"), ("iteration helpers", I+"volume/volume_foreach.hpp")],
 None, ["public volume and memory interface driven by random operation programs against a reference model"])
prop("C23", "Output records how it was produced",
 "Every completed run leaves a run report, in both formats (well-formed XML and JSON), whose name, end time, total number of time steps, final time, processes and configuration match what was actually run, and every output file embeds the configuration and the text of every script the run used as attributes, so that the embedded text equals what was read. Running again from the embedded configuration reproduces the output.",
 ["configurations", "histories"],
 "all configurations, scripts (including awkward characters), process counts and both tools",
 "Tests check neither reports nor attributes.",
 ["alsutils/src/write_run_report.cpp", "alsutils/src/make_basic_report.cpp", "alsutils/src/io/TextFileCache.cpp", S+"io/", "alsvinncli/src/main.cpp", "alsuqcli/src/main.cpp"],
 [("report", "alsutils/src/write_run_report.cpp"), ("text cache", "alsutils/src/io/TextFileCache.cpp"), ("attributes", S+"io/netcdf_write_report.cpp")],
 None, ["report files and output attributes of production runs"])
prop("C24", "The Python interface configures and runs exactly what it is told",
 "A run set up through the Python interface gives the same results as the command line tool given the equivalent configuration file; every documented setting of the interface reaches the configuration unchanged, invalid settings raise an error, and results are returned at the right coordinates.",
 ["inputs", "configurations", "programs"],
 "all sequences of settings through the interface, for single and uncertainty runs",
 "The tests call the interface for a few examples and check files exist.",
 ["python/"],
 [("configuration tree", "python/alsvinn/"), ("running the tools", "python/alsvinn/")],
 None, ["generated configuration files and outputs of runs started through the interface"])
prop("C25", "Equations implement their published definitions",
 "For each equation the physical flux, wave speeds, pressure law, conversion between primitive, conserved and derived variables, admissibility of states, and for Burgers and gas dynamics the entropy variables, entropy potential and eigenvector matrices (entropy-scaled for gas dynamics) agree with the published definitions for every admissible state, direction and parameter value (such as the adiabatic constant). Conversions are mutual inverses, wave speeds bound the flux derivative, and eigenvector matrices diagonalise the Jacobian.",
 ["inputs", "configurations"],
 "all admissible states, directions, dimensions and equation parameters",
 "Tests check a few states at the default parameter; identities must hold over the state space.",
 [I+"equation/", S+"equation/"],
 [("equation classes", I+"equation/euler/Euler.hpp and others"), ("cell computer", S+"equation/CPUCellComputer.cpp"), ("parameters", S+"equation/EquationParameterFactory.cpp")],
 None, ["cell computer from the public factory and the equation classes on random states"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
