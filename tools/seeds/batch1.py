A = "alsfvm/"
seed("fast-wave-in-side-strip", "C06", [(A + "src/simulator/ConservedSystem.cpp",
"            waveSpeedSides[k] = std::max(waveSpeedSides[k], waveSpeedTop[k]);",
"            waveSpeedSides[k] = std::max(waveSpeedBottom[k], waveSpeedTop[k]);")],
'''
init = """
u = 1.0 + 2.0 * (abs(x - X0) < 0.5 / 16) * (abs(y - 0.5) < 2.1 / 16)
"""
t = []
for x0 in (0.5 / 16, 8.5 / 16):
    d, _, _ = run("X0 = %r\\n" % x0 + init, equation="burgers", flux="rusanov", boundary="neumann", endTime=0.2, cfl=0.4,
                  writer={"type": "netcdf", "basename": "out"}, grid={"lowerCorner": (0, 0, 0), "upperCorner": (1, 1, 0), "dimension": (16, 16, 1)})
    t.append(float(saves(d)[1]["time"].ravel()[0]))
want = 0.4 / (3 * 16 + 3 * 16)
need(all(abs(x - want) < 1e-12 for x in t), "first time step %s, the limit is %.17g wherever the fast cells are" % (t, want))
''', "a two- or three-dimensional run whose fastest cells all lie in the layer next to an x boundary (the first or last cells, as deep as the ghost layer), away from the y boundaries",
 "the maximal wave speed of the boundary layers of all but the last direction is dropped, so the time step is larger than the CFL number allows")
seed("hll3-right-star-pressure", "C03", [(A + "include/alsfvm/numflux/euler/HLL3.hpp",
"            real p = pressureRight + right.rho * (right.u[direction] - sm) * udr;",
"            real p = pressureRight + right.rho * (right.u[direction] - sm) * udl;")],
'''
init = """
if S * (x - 0.5) < 0:
    rho, ux, p = 1.0, 0.3 * S, 1.0
else:
    rho, ux, p = 0.5, -0.4 * S, 0.3
"""
r = []
for s in (1, -1):
    d, _, _ = run("S = %d\\n" % s + init, flux="hll3", boundary="neumann", endTime=0.1, cfl=0.4, grid={"lowerCorner": (0, 0, 0), "upperCorner": (1, 0, 0), "dimension": (64, 1, 1)})
    r.append(saves(d)[-1])
e = abs(r[0]["E"] - r[1]["E"][..., ::-1]).max()
need(e < 1e-10, "the mirrored gas evolves as the mirror image (difference %.3g)" % e)
''', "an interface whose contact wave moves to the left in subsonic flow with different densities or velocities on both sides (the right star state is used)",
 "the pressure of the right star state uses the speed of the left wave, so the energy flux is wrong")
seed("rk3-time-step-per-stage", "C05", [(A + "src/integrator/RungeKutta3.cpp",
"    if (substep == 0) {\n        dt = computeTimestep",
"    if (substep <= 1) {\n        dt = computeTimestep")],
"""
init = "from math import pi, sin\\nu = 1.5 + 0.5 * (abs(x - 0.5) < 1.0 / 32)\\n"
d, _, _ = run(init, equation="burgers", flux="godunov", reconstruction="none", integrator="rungekutta3", cfl=0.4, endTime=0.05, writer={"type": "netcdf", "basename": "out"},
              grid={"lowerCorner": (0, 0, 0), "upperCorner": (1, 0, 0), "dimension": (32, 1, 1)})
s = saves(d); h = 1 / 32; worst = 0
L = lambda v: -(v * v / 2 - np.roll(v * v / 2, 1)) / h
for k in range(len(s) - 2):
    u = s[k]["u"].ravel(); dt = float(s[k + 1]["time"].ravel()[0] - s[k]["time"].ravel()[0])
    a = u + dt * L(u); b = 0.75 * u + 0.25 * (a + dt * L(a)); c = u / 3 + 2 / 3 * (b + dt * L(b))
    worst = max(worst, abs(c - s[k + 1]["u"].ravel()).max())
need(worst < 1e-12, "every step is one step of the third order method (difference %.3g)" % worst)
""", "a nonlinear equation whose maximal wave speed changes between the stages of one step (and a step that is limited by the CFL number)",
 "the second stage computes a new time step, so the stages of one step use different time steps")
DELAY = r'''
init = """
u = 1.0 + 0.5 * (x > 0.3) * (x < 0.6)
"""
SHIM = r"""
#include <mpi.h>
#include <unistd.h>
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
    int k; PMPI_Comm_rank(c, &k); if (k == 1) { usleep(20000); } return PMPI_Isend(b, n, t, d, tag, c, r); }
"""
open(os.path.join(SCRATCH, "shim.c"), "w").write(SHIM); so = os.path.join(SCRATCH, "shim.so")
p = subprocess.run(["mpicc", "-shared", "-fPIC", "-D_GNU_SOURCE", "-o", so, os.path.join(SCRATCH, "shim.c")])
if p.returncode: sys.exit(1)
g = {"lowerCorner": (0, 0, 0), "upperCorner": (1, 1, 0), "dimension": (32, 16, 1)}
o = dict(equation="burgers", flux="rusanov", endTime=0.05, cfl=0.4, grid=g)
a = saves(run(init, **o)[0])[-1]["u"]
b = saves(run(init, procs=2, split=(2, 1, 1), env={"LD_PRELOAD": so}, **o)[0])[-1]["u"]
need(abs(a - b).max() < 1e-12, "two processes give the result of one when messages arrive late (difference %.3g)" % abs(a - b).max())
'''
seed("sides-before-join", "C10", [(A + "src/simulator/ConservedSystem.cpp",
"    cellExchangeThread.join();\n\n    // Now compute the sides\n    for (int d = 0; d < dimensions; ++d) {\n",
"    // Now compute the sides\n    for (int d = 0; d < dimensions; ++d) {\n        if (d == dimensions - 1) {\n            cellExchangeThread.join();\n        }\n")],
DELAY, "several processes in x in two or three dimensions and a neighbour whose message arrives later than the interior of the own part is finished",
 "the cells next to the x boundaries are updated before the ghost cells of the neighbour have arrived")
