"""Numerical diffusion: every recorded step equals the step with the published
operator; total entropy of the entropy stable schemes never increases."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, conform, ref, report, run


def entropy(ck, R):
    """Semi-discrete entropy rate v . (U1 - U0)/dt of forward Euler steps."""
    c, s = R.case, R.case.scheme()
    st = R.log.steps
    g = st[0].vars[s.eq.names[0]].g[0]
    for k in range(len(st) - 1):
        dt = st[k + 1].time - st[k].time
        a, bb = (s.inner(ref.state(s.eq, st[i]), g) for i in (k, k + 1))
        v = s.eq.v(a)
        d = v * (bb - a) / dt
        tot, mag = d.sum(), np.abs(d).sum()
        ck.saw(c.key, 1); ck.count("entropy_rates")
        stable = c.diff is not None
        # the rate is the sum of the entropy production of all interfaces
        if (stable and tot > 1e-9 * mag) or (not stable and abs(tot) > 1e-9 * mag):
            ck.violation(c.key, "step %d: entropy rate %.6g (terms of total size %.3g) %s" % (k, tot, mag, "is positive" if stable else "is not zero"), c.describe())
            return
        if stable: ck.count("entropy_dissipating_steps", int(tot < -1e-9 * mag))


def body(ck):
    b = build.ensure()
    rng = random.Random("C16-%d" % ck.seed)
    cs, en = [], []
    for rep in range(6 if ck.thorough else 1):
        for eq, fl in (("burgers", ["tecno1", "tecno4", "tecno6"]), ("euler1", ["tecno1", "tecno4", "tecno6"]), ("euler2", ["tecno1", "tecno4", "tecno6"]),
                       ("euler3", ["tecno1", "tecno4"])):
            for d in ("tecnoroe", "tecnorusanov"):
                for r in ("none", "eno2", "eno3", "eno4"):
                    kinds = ["noise", "smooth", "shock", "mixed"] if eq != "euler3" or ck.thorough else ["noise", "smooth"]
                    for kd in kinds:
                        k = dict(eq=eq, flux=rng.choice(fl), diff=(d, r), kind=kd, boundary=rng.choice(["periodic", "neumann"]),
                                 cfl=.05, steps=5 if ck.thorough else 3, integ=rng.choice(["forwardeuler", "rungekutta2"]))
                        if eq == "burgers": k["nd"] = rng.choice([1, 2, 3])
                        cs.append(conform.make(ck, "%s-%s-%s-%s-%d" % (eq, d, r, kd, rep), rng, **k))
            for f in fl:
                for dif in (None, ("tecnoroe", "none"), ("tecnorusanov", "none"), ("tecnoroe", "eno2"), ("tecnorusanov", "eno2"), ("tecnoroe", "eno3")):
                    for kd in (("noise", "smooth") if dif is None or dif[1] != "none" else ("noise", "mixed", "shock")):
                        # the sign property of the entropy variables' reconstruction makes the ENO versions stable too
                        k = dict(eq=eq, flux=f, diff=dif, kind=kd, boundary="periodic", cfl=.02, steps=3, integ="forwardeuler")
                        if eq == "burgers": k["nd"] = rng.choice([1, 2, 3])
                        en.append(conform.make(ck, "rate-%s-%s-%s-%s-%d" % (eq, f, "-".join(dif or ("no",)), kd, rep), rng, **k))
    conform.sweep(ck, b, cs)
    if ck.only: en = [c for c in en if ck.only in c.key]

    def one(ic):
        i, c = ic; c.seed = ck.seed
        return cases.execute(b, c, os.path.join(ck.scratch, "e%d" % i))
    for R in run.pool(one, list(enumerate(en))):
        ck.count("runs")
        if R.nsteps() < 2: ck.violation(R.case.key + ":run", "run failed: " + R.res.tail(300), R.case.describe()); continue
        entropy(ck, R)


if __name__ == "__main__":
    report.main(report.Check("C16", rule="one recorded step compared cell by cell with the published diffusion operator, or the discrete entropy rate of one step"), body)
