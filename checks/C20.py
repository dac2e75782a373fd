"""Monotone scalar schemes: range, total variation and entropies of every recorded step."""
import os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, conform, ref, report, run

# (equation, flux, range of the data, entropy stable)
MONO = [("burgers", "godunov", (-2, 2), True), ("burgers", "rusanov", (-2, 2), True), ("burgers", "roe", (-2, 2), False),
        ("buckleyleverett", "godunov", (0, .45), True), ("buckleyleverett", "rusanov", (0, .45), True),
        ("cubic", "rusanov", (-1.5, 1.5), True), ("cubic", "roe", (-1.5, 1.5), True), ("linear", "upwind", (-3, 2), True),
        ("linear", "rusanov", (-3, 2), True), ("linear", "roe", (-3, 2), True)]


def tv(u, periodic):
    u = u.ravel()
    return np.abs(np.diff(u)).sum() + (abs(u[0] - u[-1]) if periodic else 0)


def examine(ck, R, ent, limited):
    c = R.case
    if not R.logs or R.res.rc or R.nsteps() < 2:
        ck.violation(c.key + ":run", "run failed (exit %s): %s" % (R.res.rc, R.res.tail(300)), c.describe()); return
    per = c.boundary == "periodic"
    prev = None
    for k in range(R.nsteps()):
        u = R.glob(k)[0][0]
        mag = np.abs(u).max() + 1e-300
        E = [("u^2", (u * u).sum()), ("u^4", (u ** 4).sum()), ("exp", np.exp(u).sum())] + [("|u-%.2f|" % q, np.abs(u - q).sum()) for q in c.levels]
        if prev is not None:
            ck.saw(c.key); ck.count("steps")
            lo, hi, t, Ep = prev
            tol = 1e-12 * mag
            if c.nd == 1 or not limited:
                if u.min() < lo - tol or u.max() > hi + tol:
                    ck.violation(c.key, "step %d: values in [%.17g, %.17g], before in [%.17g, %.17g]" % (k, u.min(), u.max(), lo, hi), c.describe()); return
            if c.nd == 1 and tv(u, per) > t + tol * u.size:
                ck.violation(c.key, "step %d: total variation rises from %.17g to %.17g" % (k, t, tv(u, per)), c.describe()); return
            if per and ent:
                ck.count("entropies", len(E))
                for (n, e), (_, f) in zip(E, Ep):
                    if e > f + 1e-12 * max(abs(f), mag):
                        ck.violation(c.key, "step %d: total of %s rises from %.17g to %.17g" % (k, n, f, e), c.describe()); return
            ck.count("steps_with_dissipation", int(E[0][1] < Ep[0][1] * (1 - 1e-9)))
        prev = (u.min(), u.max(), tv(u, per), E)
    ck.sample({"case": c.describe(), "steps": R.nsteps()})


def body(ck):
    b = build.ensure(("alsvinncli", "alsrec"))
    rng = random.Random("C20-%d" % ck.seed)
    cs = []
    for rep in range(12 if ck.thorough else 2):
        for eq, f, (a, z), ent in MONO:
            for nd in (1, 2, 3):
                if nd == 3 and rep % 2 and not ck.thorough: continue
                for it in ("forwardeuler", "rungekutta2", "rungekutta3"):
                    for bc in ("periodic", "neumann"):
                        if nd > 1 and bc == "neumann" and it != "forwardeuler" and not ck.thorough: continue
                        c = conform.make(ck, "%s-%s-%dd-%s-%s-%d" % (eq, f, nd, it, bc, rep), rng, eq=eq, flux=f, nd=nd, integ=it, boundary=bc,
                                         kind="data", cfl="auto" if rng.random() < .5 else .9, steps=25 if nd < 3 else 10)
                        c.rng_, c.ent, c.lim = (a, z), ent, False
                        cs.append(c)
    for rep in range(12 if ck.thorough else 3):
        for eq, f, (a, z), ent in MONO:
            if f == "roe" and eq == "burgers": continue
            for r in ("mc", "mm"):
                for it in ("auto", "rungekutta2", "rungekutta3"):
                    c = conform.make(ck, "limited-%s-%s-%s-%s-%d" % (eq, f, r, it, rep), rng, eq=eq, flux=f, nd=1, recon=r, integ=it,
                                     boundary=rng.choice(["periodic", "neumann"]), kind="data", cfl="auto", steps=30)
                    c.rng_, c.ent, c.lim = (a, z), False, True
                    cs.append(c)
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic; c.seed = ck.seed
        r = c.rng()
        a, z = c.rng_
        n = c.dims[::-1]
        t = r.uniform(0, 1, n)
        kind = r.integers(4)
        if kind == 1: t = np.round(t)                                            # only extremes
        if kind == 2: t = np.broadcast_to((np.arange(n[2]) * r.uniform(1, 4) / n[2] + r.uniform()) % 1, n)
        if kind == 3: t = np.where(r.uniform(0, 1, n) < .1, t, r.uniform())
        c.P = (a + (z - a) * t)[None].copy()
        if np.abs(c.P).max() == 0: c.P[0].flat[0] = z
        c.levels = [a + (z - a) * q for q in (.1, .3, .5, .8)]
        d = os.path.join(ck.scratch, "r%d" % i)
        R = cases.execute(b, c, d)
        shutil.rmtree(d, ignore_errors=True)
        return R
    for a in range(0, len(cs), 64):
        for R in run.pool(one, list(enumerate(cs))[a:a + 64]):
            ck.count("runs")
            examine(ck, R, R.case.ent, R.case.lim)


if __name__ == "__main__":
    report.main(report.Check("C20", rule="range, total variation and convex entropies after one recorded step compared with those before it"), body)
