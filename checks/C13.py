"""Invalid states: production runs that leave the admissible states by themselves (too large
steps, strong data) or because a recorder plug-in overwrites single cells, on one or several
processes, and uncertainty runs with an invalid sample: every recorded state is valid, the
run ends with a failure at the first invalid step (predicted by the reference model from
the last recorded state), leaves no later file and no report, and never stops otherwise."""
import glob, os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, cfg, nc, ref, report, run, uq, zoo

SPLITS = {1: [(2, 1, 1), (4, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1)], 3: [(2, 1, 1), (1, 1, 2), (2, 2, 1)]}


def valid(eq, U):
    """Clearly invalid cells (a margin for the rounding of the pressure)."""
    bad = ~np.isfinite(U).all(0)
    if isinstance(eq, ref.Euler):
        with np.errstate(all="ignore"):
            kin = .5 * (U[1:-1] ** 2).sum(0) / U[0]
            bad |= (U[0] <= 0) | (U[-1] - kin < -1e-13 * (np.abs(U[-1]) + np.abs(kin)))
    return ~bad


def comfortable(eq, U):
    if not np.isfinite(U).all(): return False
    if np.abs(U).max() > 1e100: return False
    if not isinstance(eq, ref.Euler): return True
    with np.errstate(all="ignore"):
        kin = .5 * (U[1:-1] ** 2).sum(0) / U[0]
        return bool((U[0] > 1e-6 * U[0].max()).all() and (U[-1] - kin > 1e-6 * (np.abs(U[-1]) + kin).max()).all())


def predict(c, U, t, N):
    """The state after the next step from global interior U at time t."""
    s = c.scheme(); g = s.ghosts(); V = s.pad(U, g)
    with np.errstate(all="ignore"):
        dt = s.dt(s.rhs(V, g)[1])
        k = int(np.floor(t / (c.end / N) + 1e-9)) + 1
        dt = min(dt, k * c.end / N - t) if np.isfinite(dt) else dt
        out, ws, near = s.step(V, g, dt)
    return out, near


def judge(ck, c, R, N, d, bad, poked):
    """bad: the step whose recorded state was made invalid afterwards (or None)."""
    info = dict(c.describe(), poke=c.poke, saves=N)
    key, res = c.key, R.res
    if res.timed_out: ck.violation(key + ":hang", "the run does not end after an invalid state", info); return
    if not R.logs or R.nsteps() < 1 or len(R.ranks()) != c.procs:
        ck.violation(key + ":run", "exit %s, %d logs: %s" % (res.rc, len(R.logs), res.tail(300)), info); return
    L = R.ranks(); n = [len(l.steps) for l in L]
    names = R.eq.names
    eq = R.eq
    for r, l in enumerate(L):
        for k, s in enumerate(l.steps):
            U = np.stack([s.arr(q) for q in names]); ok = valid(eq, U)
            ck.saw((c.eq, c.nd, c.kind, c.flux, c.procs > 1, bool(c.poke), bad is not None), 1); ck.count("states")
            if not ok.all():
                ck.violation(key + ":saved", "step %d, recorded on process %d of %d, holds an invalid state in %d cells, exit status %s" % (k, r, c.procs, int((~ok).sum()), res.rc), info); return
    rep = glob.glob(os.path.join(d, "*_report.json"))
    T = [s.time for s in max(L, key=lambda l: len(l.steps)).steps]
    saved = {}
    for f in glob.glob(os.path.join(d, "f_*.nc")):
        try: saved[f] = float(np.ravel(nc.read(f)[0]["time"])[0])
        except Exception: saved[f] = None                    # cut short by the failure: judged only if the run succeeded
    if res.rc == 0:
        ck.count("runs_completed")
        if bad is not None and max(n) > bad: ck.violation(key + ":continued", "%s was put into a cell after step %d, but the run ends with success after %d steps" % (c.poke, bad, max(n) - 1), info); return
        if min(n) != max(n) or T[-1] < c.end or not rep: ck.violation(key + ":end", "success, but the last steps are %s of end %g, report files %s" % (n, c.end, rep), info); return
        return
    ck.count("runs_stopped"); ck.count("runs_stopped_mpi", int(c.procs > 1))
    if rep: ck.violation(key + ":report", "the run failed (exit %s) but left a run report" % res.rc, info)
    last = min(n) - 1                                    # the step after it was invalid somewhere
    if max(n) - min(n) > 1: ck.violation(key + ":steps", "the processes recorded %s steps after the failure of one" % n, info); return
    if max(saved.values(), default=0) is not None:
        late = [t for t in saved.values() if t is not None and t > T[min(n) - 1] * (1 + 1e-12) and c.procs == 1]
        if late: ck.violation(key + ":late", "an output file of time %g exists, but the run stopped after time %g" % (late[0], T[min(n) - 1]), info)
    if c.procs == 1 and "obey constraints" not in res.err + res.out: ck.violation(key + ":message", "exit %s without naming the reason: %s" % (res.rc, res.tail(200)), info); return
    if bad is not None and last >= bad:
        if last != bad: ck.violation(key + ":when", "%s was put into a cell after step %d; the run stopped after step %d" % (c.poke, bad, last), info); return
        return
    # nothing, or something harmless, was injected: was there a reason to stop?
    U, cover = R.glob(last)
    for (k, v, (z, y, x), val) in poked:
        if k == last: U[v, z, y, x] = val
    out, near = predict(c, U, T[last], N)
    ck.count("predicted_stops")
    if comfortable(eq, out):
        if near.any(): ck.count("undecided_stops")
        else: ck.violation(key + ":stopped", "exit %s after step %d, but the next state is valid (smallest %.3g): %s" % (res.rc, last, float(out[0].min()), res.tail(200)), info)


def pokes(c, rng, logs_geometry):
    """A cell, variable and value to overwrite: (env text, step, harmful, [(step, var, zyx, value)])."""
    eq = ref.equation(c.eq, c.gamma, c.nd); eu = isinstance(eq, ref.Euler)
    loc = tuple(c.dims[q] // c.split[q] for q in range(3))
    out, rec = [], []
    step = rng.choice([0, 0, 1, 2])
    harmful = rng.random() < .75
    for _ in range(rng.choice([1, 1, 2]) if harmful else rng.choice([1, 2, 4])):
        p = tuple(rng.randrange(c.split[q]) for q in range(3))
        w = p[0] + c.split[0] * (p[1] + c.split[1] * p[2])
        ijk = tuple(rng.choice([0, loc[q] - 1, rng.randrange(loc[q])]) for q in range(3))
        if harmful:
            v = rng.randrange(eq.nv); val = rng.choice(["nan", "inf", "-inf", "nan", "inf"])
            if eu and rng.random() < .5: v, val = rng.choice([(0, "-%.3g" % rng.uniform(.3, 2)), (eq.nv - 1, "-%.3g" % rng.uniform(3, 9)), (0, "-1e300"), (eq.nv - 1, "-1e6")])
        else:
            v = 0 if not eu else rng.choice([0, eq.nv - 1])
            val = "%.3g" % (rng.choice([.5, .9, 1.1, 1.5, 1e-9]) if not eu else rng.choice([2., 3.]) if v == 0 else rng.choice([6., 20.]))
        out.append("%d:%d:%s:%d:%d:%d:%s" % (w, step, eq.names[v], ijk[0], ijk[1], ijk[2], val))
        rec.append((step, v, tuple(ijk[q] + p[q] * loc[q] for q in (2, 1, 0)), float(val)))
    return ";".join(out), step if harmful else None, rec


UQ = '''
def init_global(%s, nx, ny, nz, ax, ay, az, bx, by, bz):
    A = [%s]
    bad = min(abs(K - q) for q in BAD) < 1e-9 if BAD else False
    for k, a in enumerate(A): a[:, :, :] = 1. + .1 * K if k in (0, len(A) - 1) else .1
    if bad and (not SIDE or ax > LO):
        A[WHICH][nx // 2, ny // 2, nz // 2] = VALUE
'''


def body(ck):
    b = build.ensure(("alsvinncli", "alsuqcli", "alsrec", "alsdist"))
    rng = random.Random("C13-%d" % ck.seed)
    jobs = []
    for i in range(1600 if ck.thorough else 170):
        mode = "natural" if i % 2 else "poke"
        c = zoo.draw(ck, "%s-%d" % (mode, i), rng, boundary=rng.choice(["periodic", "neumann"]), kind=rng.choice(["noise", "shock", "strong", "smooth", "mixed", "super", "spike"]))
        if not c.eq.startswith("euler") and c.kind in ("strong", "super"): c.kind = "noise"
        c.poke, c.bad, c.poked = None, None, []
        if mode == "natural":
            c.cfl = rng.choice([.1, .4, .9, 1.5, 2., 4., 20.]); c.N = rng.choice([1, 4, 9]); c.steps = rng.choice([6, 15, 30]) if c.nd < 3 else 6
        else: c.cfl = rng.choice([.02, .05]); c.N = rng.choice([5, 20]); c.steps = 5
        if i % 3 == 0:
            c.split = rng.choice(SPLITS[c.nd]); c.procs = int(np.prod(c.split))
            c.dims = tuple((48, 28, 24)[q] if q < c.nd else 1 for q in range(3))
        jobs.append(c)
    cases_uq = []
    for i in range(160 if ck.thorough else 24):
        eq = rng.choice(["burgers", "euler1", "euler2", "linear"])
        u = {"key": "uq-%d" % i, "eq": eq, "N": rng.choice([2, 4, 8]), "m": rng.choice([1, 1, 2, 4]), "split": rng.choice([(1, 1, 1), (1, 1, 1), (2, 1, 1)])}
        if u["N"] % u["m"]: u["m"] = 2
        u["bad"] = [] if i % 4 == 0 else rng.sample(range(u["N"]), rng.choice([1, 1, 2]))
        nv = {"euler1": 3, "euler2": 4}.get(eq, 1)
        u["which"], u["value"] = rng.choice([(rng.randrange(nv), "float('nan')"), (rng.randrange(nv), "float('inf')")] + ([(nv - 1, "-1."), (0, "-.5")] if nv > 1 else []))
        u["side"] = u["split"] != (1, 1, 1) and rng.random() < .6
        cases_uq.append(u)
    if ck.only: jobs = [c for c in jobs if ck.only in c.key]; cases_uq = [u for u in cases_uq if ck.only in u["key"]]

    def one(ij):
        i, c = ij; c.seed = ck.seed
        d = os.path.join(ck.scratch, "r%d" % i)
        r = random.Random("%s-%d" % (c.key, ck.seed))
        cases.config(c, None, d)
        env = {"ALSREC_MAX": 400}
        if c.key.startswith("poke"):
            c.poke, c.bad, c.poked = pokes(c, r, None); env["ALSREC_POKE"] = c.poke
        fs = [{"name": "identity", "numberOfSaves": c.N, "writer": {"type": "netcdf", "basename": "f"}}]
        for timeout in (60, 200):
            shutil.rmtree(d, ignore_errors=True)
            R = cases.execute(b, c, d, extra_env=env, functionals=fs, timeout=timeout)
            if not R.res.timed_out: break
        return c, R, d
    for a in range(0, len(jobs), 48):
        for c, R, d in run.pool(one, list(enumerate(jobs))[a:a + 48]):
            ck.count("runs"); ck.count("mpi_runs", int(c.procs > 1)); ck.count("poked_runs", int(bool(c.poke)))
            if R.logs and any(len(l.steps) >= 400 for l in R.ranks()): ck.count("skipped_long_runs")
            else: judge(ck, c, R, c.N, d, c.bad, c.poked); ck.sample({"case": c.describe(), "poke": c.poke, "exit": R.res.rc, "steps": R.nsteps()})
            shutil.rmtree(d, ignore_errors=True)

    def uqone(u):
        d = os.path.join(ck.scratch, u["key"]); os.makedirs(d)
        eq = ref.equation(u["eq"], None, 2 if u["eq"] == "euler2" else 1)
        a = ", ".join(eq.prim)
        vals = {}
        conf = cfg.Config(equation=u["eq"], flux="hll" if u["eq"].startswith("euler") else "rusanov", reconstruction="none", integrator="forwardeuler", endTime=.02, dim=(16, 8 if u["eq"] == "euler2" else 1, 1),
                          parameters=[("K", 0.)])
        conf.writer = cfg.recorder(os.path.join(b, "verif/libalsrec.so"))
        st = [{"name": "meanvar", "numberOfSaves": 2, "writeInitialTimestep": True, "writer": {"type": "netcdf", "basename": "s"}}]
        conf.uq = uq.tree(u["N"], [("K", 1, "uniform", {})], st)
        # which parameter belongs to which sample: from a run without invalid samples
        def go(bad, dd, m, split):
            conf.script = "BAD, SIDE, LO, WHICH, VALUE = %r, %r, 0., %d, %s\n" % (bad, u["side"], u["which"], u["value"]) + UQ % (a, a)
            return uq.execute(b, conf, dd, m, split, timeout=60)
        res, logs = go([], os.path.join(d, "a"), 1, (1, 1, 1))
        if res.rc == 0:
            f = lambda l: (l.steps[0].arr(eq.names[0]).flat[0] - 1.) / .1
            ks = [f(logs[(0, q)]) for q in range(u["N"])]
            bad = [float(ks[q]) for q in u["bad"]]
            out = go(bad, os.path.join(d, "b"), u["m"], u["split"])
        else: out = (res, logs)
        return u, out, d
    for u, (res, logs), d in run.pool(uqone, cases_uq, 4):
        ck.count("uq_runs"); dd = os.path.join(d, "b")
        files = glob.glob(os.path.join(dd, "s_*.nc")); rep = glob.glob(os.path.join(dd, "*report.json"))
        ck.saw(("uq", u["eq"], u["m"], u["split"], bool(u["bad"])))
        if res.timed_out: ck.violation(u["key"] + ":hang", "an uncertainty run with an invalid sample does not end", u)
        elif u["bad"]:
            if res.rc == 0: ck.violation(u["key"] + ":continued", "samples %s are invalid, but the run ends with success" % u["bad"], u)
            elif files or rep: ck.violation(u["key"] + ":files", "samples %s are invalid and the run failed, but left %s" % (u["bad"], [os.path.basename(x) for x in files + rep]), u)
        elif res.rc or len(files) != 6 or not rep: ck.violation(u["key"] + ":valid", "all samples are valid, but exit %s, %d statistics files, reports %s: %s" % (res.rc, len(files), rep, res.tail(300)), u)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    report.main(report.Check("C13", rule="number of (equation, dimensions, data, flux, several processes, injection) classes; evaluations are recorded states judged"), body)
