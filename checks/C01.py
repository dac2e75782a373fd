"""Conservation: the sum over all cells of every conserved variable, at every
recorded step of periodic runs, for random complete configurations."""
import math, os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, conform, ref, report, run, zoo

SPLITS = {1: [(2, 1, 1), (3, 1, 1), (4, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 3, 1)], 3: [(2, 1, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 2, 2)]}


def examine(ck, R):
    c = R.case
    if R.res.timed_out or not R.logs or R.nsteps() < 2:
        if R.res.rc != 0 and R.logs and R.nsteps() == 1 and not R.res.timed_out:
            # a first step into an invalid state stops the run
            U, _ = R.glob(0); s = c.scheme(); g = s.ghosts(); P = s.pad(U, g)
            nxt = s.step(P, g, s.dt(s.rhs(P, g)[1]))[0]
            if not (np.isfinite(nxt).all() and s.eq.ok(nxt).all()): ck.count("stopped_before_invalid_state"); return
        ck.violation(c.key + ":run", "run failed (exit %s, %d steps): %s" % (R.res.rc, R.nsteps(), R.res.tail(300)), c.describe()); return
    U0, cover = R.glob(0)
    if not (cover == 1).all(): ck.violation(c.key + ":cover", "the processes' domains do not tile the grid", c.describe()); return
    s0 = [math.fsum(u.ravel()) for u in U0]
    big = max(np.abs(u).sum() for u in U0)
    for k in range(1, R.nsteps()):
        U, _ = R.glob(k)
        if not np.isfinite(U).all(): break
        big = max(big, max(np.abs(u).sum() for u in U))
        for v, u in enumerate(U):
            d = math.fsum(u.ravel()) - s0[v]
            ck.saw(c.key, 1); ck.count("sums")
            if not abs(d) <= 1e-12 * big * (k + 1):
                ck.violation(c.key, "step %d: total of %s changed by %.6g (total size %.3g)" % (k, R.eq.names[v], d, big), c.describe()); return
        ck.count("changing_steps", int(np.abs(U - U0).max() > 1e-6))
    ck.sample({"case": c.describe(), "steps": R.nsteps()})


def body(ck):
    b = build.ensure()
    rng = random.Random("C01-%d" % ck.seed)
    cs = []
    for i in range(2000 if ck.thorough else 60):      # random configurations
        cs.append(zoo.draw(ck, "any-%d" % i, rng, steps=10 if ck.thorough else 6))
    for eq in zoo.SCHEMES:                            # each flux at least once, every reconstruction once
        for f in zoo.SCHEMES[eq]: cs.append(zoo.draw(ck, "flux-%s-%s" % (eq, f), rng, eq=eq, flux=f, steps=6))
    for r in ref.GHOST: cs.append(zoo.draw(ck, "recon-%s" % r, rng, eq=rng.choice(["euler1", "euler2", "euler3"]), flux="hll3", recon=r, steps=6))
    for d in ("tecnoroe", "tecnorusanov"):
        for r in ("none", "eno2", "eno3", "eno4"):
            for eq in ("euler1", "euler2", "euler3", "burgers"):
                cs.append(zoo.draw(ck, "diff-%s-%s-%s" % (d, r, eq), rng, eq=eq, flux="tecno4", recon="none", diff=(d, r), steps=5, integ="forwardeuler"))
    for i in range(300 if ck.thorough else 16):       # several processes
        c = zoo.draw(ck, "mpi-%d" % i, rng, steps=6)
        sp = rng.choice(SPLITS[c.nd]); c.split, c.procs = sp, sp[0] * sp[1] * sp[2]
        m = {1: 32, 2: 16, 3: 16}[c.nd]
        c.dims = tuple((m if sp[d] < 3 else 48 if sp[d] == 4 else 24 + 12 * (c.nd == 1)) if d < c.nd else 1 for d in range(3))
        cs.append(c)
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic; c.seed = ck.seed
        d = os.path.join(ck.scratch, "r%d" % i)
        R = cases.execute(b, c, d)
        shutil.rmtree(d, ignore_errors=True)
        return R
    for a in range(0, len(cs), 64):
        for R in run.pool(one, list(enumerate(cs))[a:a + 64]):
            ck.count("runs"); ck.count("mpi_runs", int(R.case.procs > 1))
            examine(ck, R)


if __name__ == "__main__":
    report.main(report.Check("C01", rule="total of one conserved variable after one recorded step compared with the initial total"), body)
