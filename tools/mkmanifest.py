#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (authoring helper; the JSON file is what counts)."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "runtime monitoring: "
# property -> (technique, level, note)
C = {
 "C01": (T + "conservation monitor on the per-step log of production runs", "exploration",
         "Sums of every conserved variable at every recorded step of randomly drawn periodic runs (all equations, fluxes, reconstructions, integrators, diffusion operators, 1-3 dimensions, MPI layouts)."),
 "C02": (T + "metamorphic monitor comparing whole histories of symmetric runs", "exploration",
         "Pairs of runs related by shifts, mirrored or exchanged axes, lifting to more dimensions, moved domains; uniform states."),
 "C03": (T + "step-by-step conformance of recorded runs with an independent reference model of the fluxes", "exploration",
         "Every recorded step recomputed from the recorded state with published flux formulas; data kinds reach every branch (sonic, supersonic, near vacuum, equal states)."),
 "C04": (T + "step-by-step conformance of recorded runs with a reference model of the reconstructions", "exploration",
         "Every recorded step recomputed; stencil choices at exact ties are skipped after the first stage and counted."),
 "C05": (T + "step-by-step conformance of recorded runs with a reference model of the integrators", "exploration",
         "Every integrator with anisotropic cells, all dimensions and boundary types, several consecutive steps."),
 "C06": (T + "trace monitor of time steps, clocks and end times", "exploration",
         "Every recorded time step against the CFL formula recomputed from the recorded state, plus requested output times; MPI processes compared."),
 "C07": (T + "accounting of the output files of a run against its recorded history", "exploration",
         "Which saves exist, at which times and with which content, for every kind of save schedule (fixed intervals, whole runs, time windows, coarse graining), with rounding-prone intervals and several processes."),
 "C08": (T + "comparison of every output file and in-situ hook call with the state an independent recorder plug-in saw", "exploration",
         "netCDF files, Python hooks and writer plug-ins of one and several processes, bit for bit against recorded states, including call order, times and grid information."),
 "C09": (T + "invariant monitor on the recorded ghost cells", "exploration",
         "All ghost cells of every recorded state; process boundaries through the update of the assembled global state."),
 "C10": (T + "differential monitor of MPI runs against one process, with message delays injected at the MPI profiling interface", "exploration",
         "History, time steps, files, tiling, and message accounting (every send received, waits complete, no buffer reuse) under injected delays."),
 "C11": ("ThreadSanitizer over whole-program runs with a substitute OpenMP runtime and a message monitor that expose OpenMP ordering and MPI memory accesses; " + T + "bitwise comparison over numbers of threads and permuted, delayed and serialised thread orders", "exploration",
         "Histories and functionals of runs with 1 to 16 threads, repeated, and under random thread orders; races in flow, exchange, ensembles, writers, functionals, timers. Races between accesses inside the uninstrumented MPI, HDF5 and Python libraries are not seen."),
"C12": ("AddressSanitizer and UndefinedBehaviorSanitizer (with library assertions and patterned automatic variables) over the workloads of the other checks and odd shapes; " + T + "comparison of runs with different bytes in fresh memory; peak memory over many steps and samples", "exploration",
         "Every report or crash counts. Uninitialised memory is detected when it reaches recorded states or files (three memory fillings). Memory internal to uninstrumented libraries is not watched."),
"C13": (T + "validity monitor on recorded states under injected faults", "fault_enumeration",
         "Runs that become invalid by themselves or because a plug-in overwrites cells with NaN, infinities or inadmissible values; the stop is compared with the first invalid step predicted by the reference model; uncertainty runs with invalid samples."),
 "C14": (T + "exit-status, message and output monitor under configuration faults and injected I/O failures", "fault_enumeration",
         "Valid configurations must succeed with every requested output; each of about a hundred single faults (options, values, files, scripts, plug-ins, layouts, failing write/open calls) must end in an explained failure."),
 "C15": (T + "oracle monitor of recorded initial states and of what the initial-data script itself observed", "exploration",
         "Generated scripts of both interfaces (cell-wise and global) with parameters, imports, lower and upper bounds, several processes; erroneous scripts must be refused."),
 "C16": (T + "conformance with a reference diffusion operator and an entropy-rate monitor", "exploration",
         "Recorded steps against the reference operator; sign of the semi-discrete entropy rate of forward Euler steps."),
 "C17": (T + "accounting of the samples and parameters every simulation of an uncertainty run really had", "exploration",
         "The initial state of each simulation is its parameter vector; recorded on every process, compared across layouts, repetitions, sample ranges, the configured distributions and plug-in generators."),
 "C18": (T + "recomputation of every statistics file from the recorded histories of all samples of the same run", "exploration",
         "All statistics with random parameters, saves and time windows, several layouts over samples and space, including save times reached by rounding."),
 "C19": (T + "recomputation of every functional file from the recorded history of the same run", "exploration",
         "All functionals with random parameters at instants, over windows and over snapshots of a window; every process part."),
 "C20": (T + "inequality monitors (range, total variation, entropy) on the per-step log", "exploration",
         "Each recorded step of monotone configurations at Courant numbers up to the limit."),
 "C21": (T + "oracle monitor of final states on refined grids against exact solutions", "exploration",
         "Rates of error over grids: smooth waves by characteristics, isentropic waves, oblique transport, vortex, Riemann problems (exact solver, convex hulls) in all directions; rates of error over time steps for the integrators."),
 "C22": (T + "differential monitor of random operation programs on solution arrays against a numpy model", "exploration",
         "Random programs over random shapes, ghost depths, shared views and threads; all arrays compared every few operations, mismatching operands must be refused."),
 "C23": (T + "comparison of reports and provenance attributes of real runs with what was run", "exploration",
         "Reports (XML, JSON) and attributes of every output file of single and uncertainty runs: configuration and scripts as read, settings, steps and times as a recorder saw them, MPI layout; hostile paths, characters and files changed during the run."),
 "C24": (T + "oracle monitor of the Python interface driving real runs", "exploration",
         "Generated sequences of alsvinn.run and its result objects: resulting configuration values, data, times, variables and failures compared with what the command line gives and a recorder saw."),
 "C25": (T + "oracle monitor of the equation classes on random states, in extended precision", "exploration",
         "Fluxes, speeds, pressure, conversions, admissibility, entropy variables, potentials and eigenvector equations with Jacobians by differences of the defining formulas, several adiabatic constants."),
}
NA = {}
if __name__ == "__main__":
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in C and os.path.exists(os.path.join(HERE, "checks", i + ".py")):
            cmd = "/usr/bin/python3.12 checks/%s.py --tier " % i
            checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                           "evidence_file": "evidence/%s.json" % i, "technique": C[i][0], "level": C[i][1], "level_note": C[i][2]})
        else:
            na.append({"property": i, "reason": NA.get(i, "the check for this property is not finished; nothing is claimed for it yet")})
    m = {"version": 1, "setup_cmd": "/usr/bin/python3.12 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: all observation goes through the writer plug-in interface, the MPI profiling interface, the output files and sanitizer builds made out of tree. known-findings.json lists the repaired defects (status fixed) and the open findings."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks;", [x["property"] for x in na])
