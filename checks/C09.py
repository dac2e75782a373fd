"""Boundary conditions: every ghost cell next to the domain or to another
process's subdomain, at every recorded step."""
import os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, conform, ref, report, run, zoo

SPLITS = {1: [(2, 1, 1), (4, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1)], 3: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 2, 2)]}


def source(i, n, bc):
    """Index of the cell whose value position i (possibly outside) must hold."""
    i = np.asarray(i)
    if bc == "periodic": return i % n
    i = np.where(i < 0, -1 - i, i)
    return np.where(i >= n, 2 * n - 1 - i, i)


def examine(ck, R):
    c = R.case
    if R.res.timed_out or not R.logs or R.nsteps() < 1:
        ck.violation(c.key + ":run", "run failed (exit %s, %d steps): %s" % (R.res.rc, R.nsteps(), R.res.tail(300)), c.describe()); return
    names = R.eq.names
    for k in range(R.nsteps()):
        U, cover = R.glob(k)
        if not (cover == 1).all(): ck.violation(c.key + ":cover", "domains of the processes do not tile the grid", c.describe()); return
        for l in R.ranks():
            for q, nm in enumerate(names):
                v = l.steps[k].vars[nm]
                off = [int(round((v.a[d] - c.lower[d]) / c.h[d])) for d in range(3)]
                for d in range(3):
                    if v.g[d] == 0:
                        if d < c.nd: ck.violation(c.key, "no ghost cells in active direction %d" % d, c.describe()); return
                        continue
                    if d >= c.nd: ck.violation(c.key, "ghost cells in the unused direction %d" % d, c.describe()); return
                    ax = 2 - d
                    sl = [slice(v.g[2 - a], v.full.shape[a] - v.g[2 - a]) for a in range(3)]
                    for side in (0, 1):
                        loc = np.arange(-v.g[d], 0) if side == 0 else np.arange(v.n[d], v.n[d] + v.g[d])
                        s2 = list(sl); s2[ax] = slice(loc[0] + v.g[d], loc[-1] + 1 + v.g[d])
                        have = v.full[tuple(s2)]
                        src = [np.arange(v.n[e]) + off[e] for e in range(3)]
                        src[d] = source(loc + off[d], c.dims[d], c.boundary)
                        want = U[q][np.ix_(src[2], src[1], src[0])]
                        inner = (0 <= loc[0] + off[d] and loc[-1] + off[d] < c.dims[d]) or (c.boundary == "periodic" and c.split[d] > 1)
                        if inner: continue          # refilled from the neighbour before every stage: decided by the steps below
                        ck.saw((c.boundary, c.nd, d, side, v.g[d], c.procs > 1), have.size)
                        ck.count("domain_boundary_faces")
                        if not np.array_equal(have, want):
                            i = np.unravel_index(np.argmax(np.where(have == want, 0, 1)), have.shape)
                            ck.violation(c.key, "step %d, rank %d, %s: ghost cell on the %s side of direction %d, depth index %s, holds %.17g instead of %.17g (%s)"
                                         % (k, l.rank, nm, "upper" if side else "lower", d, tuple(map(int, i)), have[i], want[i], c.boundary), c.describe()); return
    if c.procs > 1: conform.global_steps(ck, R)
    ck.sample({"case": c.describe(), "steps": R.nsteps()})


def body(ck):
    b = build.ensure()
    rng = random.Random("C09-%d" % ck.seed)
    cs = []
    for rep in range(6 if ck.thorough else 1):
        for eq in ("burgers", "euler1", "euler2", "euler3", "linear"):
            for bc in ("periodic", "neumann"):
                for nd in ((1, 2, 3) if not eq.startswith("euler") else (int(eq[5]),)):
                    for g in (("none", "mc", "eno2", "eno3", "eno4", "wide4", "wide6") if nd < 3 or ck.thorough else ("none", "eno4", "eno2")):
                        k = dict(eq=eq, boundary=bc, kind="noise", steps=3, integ=rng.choice(["forwardeuler", "rungekutta2", "rungekutta3", "rungekutta4"]), cfl=.05)
                        if g.startswith("wide"):
                            if eq == "linear": continue
                            k.update(flux=("godunov" if eq == "burgers" else "tecno") + g[4], recon="none")
                        else: k.update(flux="rusanov" if not eq.startswith("euler") else "hll", recon=g)
                        if not eq.startswith("euler"): k["nd"] = nd
                        k["diff"] = ("none", "none")
                        cs.append(zoo.draw(ck, "%s-%s-%d-%s-%d" % (eq, bc, nd, g, rep), rng, **k))
        for i in range(16):
            eq = rng.choice(["burgers", "euler1", "euler2", "euler3"])
            c = zoo.draw(ck, "mpi-%d-%d" % (i, rep), rng, eq=eq, kind="noise", steps=3, boundary=rng.choice(["periodic", "neumann"]), cfl=.05)
            sp = rng.choice(SPLITS[c.nd]); c.split, c.procs = sp, sp[0] * sp[1] * sp[2]
            c.dims = tuple((48, 32, 30)[d] if d < c.nd else 1 for d in range(3)) if c.nd < 3 else (32, 30, 32)
            c.dims = tuple(m - m % s if m > 1 else 1 for m, s in zip(c.dims, sp))
            cs.append(c)
        # smallest grids the ghost depth allows
        for bc in ("periodic", "neumann"):
            for r in ("none", "mc", "eno3"):
                n = 3 * ref.GHOST[r]
                cs.append(zoo.draw(ck, "small-%s-%s-%d" % (bc, r, rep), rng, eq="burgers", flux="godunov", recon=r, boundary=bc, kind="noise", steps=3, cfl=.1, dims=(n, n + 1, 1), diff=None))
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic; c.seed = ck.seed
        d = os.path.join(ck.scratch, "r%d" % i)
        R = cases.execute(b, c, d)
        shutil.rmtree(d, ignore_errors=True)
        return R
    for a in range(0, len(cs), 64):
        for R in run.pool(one, list(enumerate(cs))[a:a + 64]):
            ck.count("runs"); ck.count("mpi_runs", int(R.case.procs > 1))
            examine(ck, R)


if __name__ == "__main__":
    report.main(report.Check("C09", rule="one face of ghost cells of one variable at one recorded step compared with the cells prescribed by the boundary condition"), body)
