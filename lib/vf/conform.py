"""Step-by-step conformance of recorded runs with the reference model."""
import os
import numpy as np
from . import cases, ref, run


def tolerance(case):
    """Rounding allowance of one step, relative to the size of the variables."""
    t = 1e-10
    if case.flux.startswith("tecno") and not case.eq.startswith("euler"): t = 1e-8   # (psi_r - psi_l) / (v_r - v_l)
    if case.diff and case.diff[0] != "none":
        t = 1e-8

    return t


def steps(ck, R, key=None, tol=None, dts=True, ghosts=True, maxsteps=None, only_dt=False):
    """Compares every recorded step of a serial run with the model: interior after
    the step, time step, ghost cells.  Returns the number of steps compared."""
    c, s = R.case, R.case.scheme()
    key = key or c.key
    if not R.logs or R.nsteps() < 1 or (R.nsteps() < 2 and R.res.rc == 0):
        ck.violation(key + ":run", "the run recorded %d steps (exit %s): %s" % (R.nsteps(), R.res.rc, R.res.tail(400)), c.describe())
        return 0
    st = R.log.steps
    g = st[0].vars[s.eq.names[0]].g[0]
    tol = tol or tolerance(c)
    U = [ref.state(s.eq, x) for x in st]
    done = 0
    for k in range(len(st) - 1):
        if maxsteps and k >= maxsteps: break
        dt = st[k + 1].time - st[k].time
        A = s.inner(U[k + 1], g)
        if not np.isfinite(s.inner(U[k], g)).all() or not s.eq.ok(s.inner(U[k], g)).all():
            ck.count("stopped_at_invalid_state"); break
        dev, ix, ws, n, skip = cases.compare_step(s, U[k], g, dt, A)
        if only_dt: n = 1
        elif not np.isfinite(A).all() and not (dev < np.inf):
            pass
        done += 1
        ck.saw(key, n)
        ck.count("steps"); ck.count("cells_skipped_stencil_ties", skip)
        if not only_dt and not dev <= tol:
            ck.violation(key, "step %d, variable %s, cell (z,y,x)=%s: deviates from the scheme by %.3g (relative; allowed %.0e)"
                         % (k, s.eq.names[ix[0]], tuple(int(i) for i in ix[1:]), dev, tol), c.describe())
            return done
        if dts:
            want = s.dt(ws)
            if not abs(dt - want) <= 1e-10 * want:
                ck.violation(key + ":dt", "step %d: time step %.17g, the CFL condition gives %.17g" % (k, dt, want), c.describe())
                return done
    if R.res.rc != 0 and np.isfinite(U[-1]).all() and s.eq.ok(s.inner(U[-1], g)).all():
        # only a step into an invalid state excuses the exit
        nxt = s.step(U[-1], g, s.dt(s.rhs(U[-1], g)[1]))[0]
        if np.isfinite(nxt).all() and s.eq.ok(nxt).all():
            ck.violation(key + ":exit", "exit %d although all states are valid: %s" % (R.res.rc, R.res.tail(300)), c.describe())
        ck.count("stopped_before_invalid_state")
    return done


def global_steps(ck, R, key=None, tol=None):
    """The same for runs on several processes, on the assembled global arrays."""
    c, s = R.case, R.case.scheme()
    key, tol = key or c.key, tol or tolerance(R.case)
    g = s.ghosts()
    times = R.times()
    for k in range(R.nsteps() - 1):
        U, A = R.glob(k)[0], R.glob(k + 1)[0]
        if not (np.isfinite(U).all() and s.eq.ok(U).all()): break
        dt = times[k + 1] - times[k]
        dev, ix, ws, n, skip = cases.compare_step(s, s.pad(U, g), g, dt, A)
        ck.saw(key, n); ck.count("global_steps")
        if not dev <= tol:
            ck.violation(key, "step %d, variable %s, global cell (z,y,x)=%s: deviates from the scheme by %.3g (relative)"
                         % (k, s.eq.names[ix[0]], tuple(int(i) for i in ix[1:]), dev), c.describe())
            return
        want = s.dt(ws)
        if not abs(dt - want) <= 1e-10 * want:
            ck.violation(key + ":dt", "step %d: time step %.17g, the CFL condition gives %.17g" % (k, dt, want), c.describe())
            return


def sweep(ck, build, cs, **kw):
    """Runs the cases in parallel and compares all of them."""
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic
        c.seed = ck.seed
        d = os.path.join(ck.scratch, "r%d" % i)
        R = cases.execute(build, c, d)
        if not ck.keep: __import__("shutil").rmtree(d, ignore_errors=True)
        return R
    # in chunks, so that logs do not pile up in memory
    for a in range(0, len(cs), 64):
        for R in run.pool(one, list(enumerate(cs))[a:a + 64]):
            n = steps(ck, R, **kw)
            ck.count("runs")
            if n: ck.sample({"case": R.case.describe(), "steps_compared": n})


def size(ck, nd, rng, big=False):
    """Grid sizes, all different between the directions."""
    if nd == 1: return (rng.choice([16, 21, 32, 45, 64]), 1, 1)
    if nd == 2: return (rng.choice([15, 16, 18, 22]), rng.choice([17, 19, 20, 24]), 1)
    return (rng.choice([15, 16]), rng.choice([17, 18]), rng.choice([19, 20]))


UP = [(1., 1., 1.), (1., .7, 1.9), (2.5, 1., .4), (.125, 3., 1.)]
LO = [(0., 0., 0.), (-.5, .1, -1.)]


def make(ck, key, rng, **k):
    """A case with random geometry."""
    eq = k["eq"]
    nd = int(eq[5]) if eq.startswith("euler") else k.pop("nd", rng.choice([1, 1, 2, 3]))
    lo, up = rng.choice(LO), rng.choice(UP)
    k.setdefault("cfl", .3)
    k.setdefault("steps", 3)
    return cases.Case(key, dims=k.pop("dims", None) or size(ck, nd, rng), lower=lo,
                      upper=tuple(l + u for l, u in zip(lo, up)), **k)
