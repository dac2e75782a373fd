"""Statistics of uncertainty runs: every file a statistic writes against the same statistic
computed here from the individual samples, whose every step a recorder plug-in logged in
the same run; each configuration under several distributions of samples and space."""
import os, re, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, cfg, nc, report, run, uq, zoo
from vf import functional as F

SCRIPT = '''
_table = %r
def init_global(%s, nx, ny, nz, ax, ay, az, bx, by, bz):
    import numpy as _np
    P = _np.concatenate([_np.atleast_1d(q) for q in (%s)])
    T = _np.load(_table)
    lo, n, up = %r, %r, %r
    off = [int(round((a - l) / ((u - l) / m))) if u > l else 0 for a, l, u, m in zip((ax, ay, az), lo, up, n)]
    T = T[:, off[0]:off[0] + nx, off[1]:off[1] + ny, off[2]:off[2] + nz]
    for k, dest in enumerate((%s,)):
        q = P[k %% len(P)]
        dest[:, :, :] = T[k] * (1 + .4 * (q - .5)) if k in (0, len(T) - 1) else T[k] + .3 * (q - .5)
'''


def stats(c, rng):
    """The statistics to ask for: [(dict for the configuration, kind)]"""
    eu, nd = c.eq.startswith("euler"), c.nd
    deg = lambda: rng.randrange(1, 5)
    m = rng.randrange(1, 7)
    fs = [{"name": "meanvar"}, {"name": "onepointmoment", "p": deg()}, {"name": "bv_direction", "p": rng.randrange(1, 4)},
          {"name": "functional", "functionalName": "moment", "degree": deg()}, {"name": "functional", "functionalName": "identity"}]
    if nd < 3: fs += [{"name": "bv", "p": rng.randrange(1, 4)}, {"name": "functional", "functionalName": "bv", "degree": rng.randrange(1, 3)}]
    one = c.split == (1, 1, 1)
    if one:
        fs += [{"name": "structure_basic", "direction": rng.randrange(nd), "p": rng.choice([1., 2., 3., 1.5]), "numberOfH": m},
               {"name": "structure_cube", "p": rng.choice([1., 2., 3., 4., 5., 2.5]), "numberOfH": rng.randrange(2, 5 if nd < 3 else 3)},
               {"name": "structure_2pt", "direction1": rng.randrange(nd), "direction2": rng.randrange(nd), "numberOfH": rng.randrange(1, 5)}]
    if nd == 2:
        lo, hi = c.range; w = hi - lo + 2
        fs.append({"name": "functional", "functionalName": "legendre", "minValue": lo - 2 * w, "maxValue": hi + 2 * w, "degree_k": rng.randrange(3), "degree_n": rng.randrange(3), "degree_m": rng.randrange(3)})
    if eu: fs.append({"name": "functional", "functionalName": "log_entropy", "gamma": c.gamma or 1.4})
    rng.shuffle(fs)
    out = []
    for i, s in enumerate(fs[:rng.randrange(3, 6)]):
        s = dict(s)
        if s["name"] == "functional" and rng.random() < .4:
            s["name"] = "functional_time_integrated"
            s["time"], s["timeRadius"] = c.end * rng.choice([.4, .5, .75]), c.end * rng.choice([.2, .3, .6])
            if rng.random() < .3: s["numberOfSaves"] = rng.choice([1, 3, 4])
        else:
            s["numberOfSaves"] = rng.choice([1, 1, 2, 3])
            if rng.random() < .4: s["writeInitialTimestep"] = True
        s["writer"] = {"type": "netcdf", "basename": "s%d" % i}
        out.append(s)
    return out


def outputs(s, names):
    """(name of the output, function of (variable index, U, case) -> value, size for rounding) per file of a statistic"""
    one = lambda v: (np.reshape(np.array(v, float), (1, 1, -1)),) * 2
    k = s["name"]
    if k == "meanvar": return [("mean", lambda n, U, c: (U[n], np.abs(U[n]))), ("variance", None)]
    if k == "onepointmoment": return [("m%d" % s["p"], lambda n, U, c: (U[n] ** s["p"], np.abs(U[n]) ** s["p"]))]
    if k == "bv": return [("bv_%d" % s["p"], lambda n, U, c: F.value({"name": "bv", "degree": s["p"]}, n, U, 0, c, 0))]
    if k == "bv_direction":
        return [("bv_%s_%d" % ("xyz"[d], s["p"]), lambda n, U, c, d=d: one([F.bv_direction(U[n], d, s["p"]) if d < c.nd else 0.])) for d in range(3)]
    if k == "structure_basic": return [("structure_basic_%f" % s["p"], lambda n, U, c: one(F.base(U[n], s["direction"], s["p"], s["numberOfH"], c.boundary)))]
    if k == "structure_cube": return [("structure_cube_%f" % s["p"], lambda n, U, c: F.value(s, n, U, 0, c, 0))]
    if k == "structure_2pt":
        def f(n, U, c):
            a, b = F.two_point(U[n], s["direction1"], s["direction2"], s["numberOfH"]); return a.T[None], b.T[None]
        return [("structure_2pt", f)]
    g = dict(s, name=s["functionalName"])
    def h(n, U, c):
        a, b = F.value(g, n, U, 0, c, c.gamma or 1.4)
        return (a, b) if a.ndim == 3 else (np.zeros((1, 1, 1)),) * 2
    return [("mean_" + s["functionalName"], h)]


POINTWISE = ("meanvar", "onepointmoment")


def judge(ck, key, c, s, samples, d, N, info):
    """samples: {sample id: {part position: log}}"""
    names = F.names(c)
    k = "%s:%s%s" % (key, s["name"], "-" + s["functionalName"] if "functionalName" in s else "")
    timed = s["name"] == "functional_time_integrated"
    if "numberOfSaves" in s:
        iv = c.end / s["numberOfSaves"]; T = [j * iv for j in range(0 if s.get("writeInitialTimestep") else 1, s["numberOfSaves"])] + [c.end]
    else: T = None
    pos = sorted(next(iter(samples.values())))
    pointwise = s["name"] in POINTWISE or s.get("functionalName") in ("identity", "moment", "legendre_pointwise")

    def index(log, t):
        tt = np.array([q.time for q in log.steps]); i = int(np.argmin(np.abs(tt - t)))
        # (the last of equally good ones is the step at which the time was reached)
        return i if abs(tt[i] - t) <= 1e-9 * c.end else None

    def plan(log):
        """weights of the steps, per file"""
        t = [q.time for q in log.steps]
        if T is not None: called = [index(log, x) for x in T]
        else: called = list(range(len(t)))
        if None in called: return None
        if not timed: return [[(q, 1., 1.)] for q in called]
        last, w, a, r = 0., [], s["time"], s["timeRadius"]
        for q in called:
            dist = abs(t[q] - a); lo = t[q] - max(last, a - r)
            if dist < r * (1 - 1e-12): w.append((q, lo, lo))
            elif dist <= r * (1 + 1e-12): w.append((q, 0., max(lo, 0.)))
            last = t[q]
        return [w]
    plans = {i: {p: plan(l) for p, l in v.items()} for i, v in samples.items()}
    if any(q is None for v in plans.values() for q in v.values()):
        ck.violation(k + ":times", "a sample has no step at a requested time of statistic %s" % s["name"], info); return
    nf = 1 if timed else len(T)
    for name, fn in outputs(s, names):
        base = "%s_%s" % (s["writer"]["basename"], name)
        have = sorted(x for x in os.listdir(d) if x.startswith(base + "_") and x.endswith(".nc"))
        if have != sorted("%s_%d.nc" % (base, j) for j in range(nf)):
            ck.violation(k + ":files", "statistic %s: %d files expected, found %s" % (name, nf, have), info); return
        for j in range(nf):
            V, attrs, dims = nc.read(os.path.join(d, "%s_%d.nc" % (base, j)))
            for n, var in enumerate(names):
                if var not in V: ck.violation(k + ":variables", "%s file %d has no variable %s" % (name, j, var), info); return
                for p in pos:
                    lo = hi = tol = m1 = m2 = 0.
                    for i in samples:
                        log = samples[i][p]
                        if not plans[i][p][j] and timed:
                            U = np.stack([log.steps[0].arr(q) for q in names]); lo = lo + 0 * fn(n, U, c)[0]; hi = hi + 0 * lo; tol = tol + 0 * lo
                        for q, w0, w1 in plans[i][p][j]:
                            U = np.stack([log.steps[q].arr(x) for x in names])
                            if fn is None: m1 = m1 + U[n] / N; m2 = m2 + U[n] ** 2 / N
                            else:
                                v, size = fn(n, U, c); a, b = w0 * v / N, w1 * v / N
                                lo, hi = lo + np.minimum(a, b), hi + np.maximum(a, b); tol = tol + 1e-12 * size * max(w0, w1, 1e-9) / N * 3
                    if fn is None: lo = hi = m2 - m1 ** 2; tol = 1e-13 * m2 * (10 + N)
                    shape = lo.shape
                    nparts = tuple(c.split)
                    got = V[var]
                    want = tuple(shape[2 - q] * nparts[q] for q in range(3))
                    if got.shape != want[::-1]: ck.violation(k + ":shape", "%s file %d variable %s has size %s instead of %s" % (name, j, var, got.shape[::-1], want), info); return
                    G = got[tuple(slice(p[q] * shape[2 - q], (p[q] + 1) * shape[2 - q]) for q in (2, 1, 0))]
                    bad = ~((G >= lo - tol) & (G <= hi + tol))
                    ck.saw((s["name"], s.get("functionalName"), c.nd, "space" if len(pos) > 1 else "", info["multi"] > 1), G.size); ck.count("statistic_values", G.size)
                    if bad.any():
                        x = tuple(np.argwhere(bad)[0])
                        ck.violation(k, "%s of %s, file %d, entry %s on part %s: %.15g, from the %d samples %.15g..%.15g" % (name, var, j, x[::-1], p, G[x], N, lo[x], hi[x]), info); return


LAYOUTS = {1: [(2, 1, 1)], 2: [(2, 1, 1), (1, 2, 1)], 3: [(2, 1, 1), (1, 1, 2)]}


def body(ck):
    b = build.ensure(("alsuqcli", "alsrec"))
    rng = random.Random("C18-%d" % ck.seed)
    jobs = []
    for i in range(260 if ck.thorough else 34):
        eq = rng.choice(["burgers", "cubic", "linear", "euler1", "euler2", "euler3", "euler2"])
        k = {} if eq.startswith("euler") else {"nd": rng.choice([1, 2, 2, 3])}
        steps = rng.choice([1, 2, 3, 5, 8])
        c = zoo.draw(ck, "stats-%d" % i, rng, eq=eq, boundary=rng.choice(["periodic", "neumann"]), kind=rng.choice(["smooth", "shock", "spike"]), cfl=.1, steps=steps, diff=None, **k)
        c.seed = ck.seed
        c.split = rng.choice(LAYOUTS[c.nd]) if i % 4 == 1 else (1, 1, 1)
        n = {1: (24, 40), 2: (13, 18), 3: (11, 13)}[c.nd]
        c.dims = tuple(rng.randrange(*n) * c.split[q] if q < c.nd else 1 for q in range(3))
        c.P = None; c.P = cases.initial(c)
        s = c.scheme(); U = s.eq.to_cons(c.P)
        w = [float(np.max(s.eq.speed(U, q))) or 1. for q in range(c.nd)]
        c.range = float(U.min()), float(U.max())
        # few and irregular steps too: the save times are then reached from far away
        c.end = rng.choice([float("%.6g" % (s.dt(w) * (steps - .5))), s.dt(w) * steps * rng.uniform(.5, .99)])
        c.params = [(nm, rng.randrange(1, 4), rng.choice(["uniform", "uniform"]), {}) for nm in rng.sample(["K", "a", "bb", "X1"], rng.randrange(1, 4))]
        c.N = rng.choice([1, 2, 4, 6, 6, 12]) if c.nd < 3 else rng.choice([2, 4])
        c.S = stats(c, rng); c.start = rng.choice([None, None, 3])
        multis = [m for m in (1, 2, 3, 4, 6) if c.N % m == 0 and m * int(np.prod(c.split)) <= 8]
        for m in rng.sample(multis, min(len(multis), 2)): jobs.append((c, m))
    # The first save is reached by one step that is longer than all before: the time at which the
    # samples get there then differs by rounding between them
    for i in range(20 if ck.thorough else 6):
        c = zoo.draw(ck, "late-%d" % i, rng, eq="burgers", flux="godunov", recon="none", integ="forwardeuler", boundary="periodic", kind="spike", cfl=.5, steps=2, nd=1)
        c.seed = ck.seed; c.split = (1, 1, 1); c.dims = (rng.randrange(16, 20), 1, 1); c.diff = None
        c.P = np.full((1, 1, 1, c.dims[0]), .2); c.P[0, 0, 0, rng.randrange(c.dims[0])] = 1.
        c.range = 0., 2.; c.end = rng.uniform(1.7, 1.95) / 32
        c.lower, c.upper = (0., 0., 0.), (c.dims[0] * c.end / (.5 * rng.uniform(2.25, 2.5)), 1., 1.)
        c.params = [("K", 1, "uniform", {})]; c.N = 60; c.start = None
        c.S = [{"name": "meanvar", "numberOfSaves": 1, "writer": {"type": "netcdf", "basename": "s0"}}]
        for m in (1, 4): jobs.append((c, m))
    if ck.only: jobs = [j for j in jobs if ck.only in "%s-m%d" % (j[0].key, j[1])]

    def one(ij):
        i, (c, m) = ij
        d = os.path.join(ck.scratch, "u%d" % i)
        os.makedirs(d)
        eq = cases.ref.equation(c.eq, c.gamma, c.nd)
        np.save(os.path.join(d, "init.npy"), np.ascontiguousarray(c.P.transpose(0, 3, 2, 1)))
        a = ", ".join(eq.prim)
        conf = cases.config(c, os.path.join(b, "verif/libalsrec.so"), d)
        conf.script = SCRIPT % (os.path.join(d, "init.npy"), a, "".join(p[0] + ", " for p in sorted(c.params)), list(c.lower), list(c.dims), list(c.upper), a)
        conf.uq = uq.tree(c.N, c.params, c.S, c.start)
        res, logs = uq.execute(b, conf, d, m, c.split, extra_env={"ALSREC_MAX": 400}, timeout=60)
        return c, m, res, logs, d
    for a in range(0, len(jobs), 24):
        for c, m, res, logs, d in run.pool(one, list(enumerate(jobs))[a:a + 24], 4):
            key = "%s-m%d" % (c.key, m); parts = int(np.prod(c.split))
            info = dict(c.describe(), multi=m, samples=c.N, stats=c.S, params=c.params)
            ck.count("runs"); ck.count("mpi_runs", int(m * parts > 1))
            if res.timed_out or res.rc:
                # (an invalid state stops the run; mpirun may lose the message, then the same samples on one process tell)
                stopped = lambda r: "obey constraints" in r.out + r.err or len(re.findall(r"nan\b", r.out + r.err)) > 8
                if not stopped(res) and not res.timed_out:
                    os.makedirs(d + "s")
                    for l in os.listdir(d):
                        if l.endswith((".npy", ".py")): shutil.copy(os.path.join(d, l), d + "s")
                    again, _ = uq.execute(b, conf, d + "s", 1, (1, 1, 1), extra_env={"ALSREC_MAX": 400}, timeout=60)
                    shutil.rmtree(d + "s", ignore_errors=True)
                    if again.rc and stopped(again): res = again
                if stopped(res): ck.count("skipped_stopped_runs")
                else: ck.violation(key + ":run", "%s: %s" % ("did not end within 60 s" if res.timed_out else "exit %s" % res.rc, res.tail(300)), info)
            elif any(len(l.steps) >= 400 for l in logs.values()): ck.count("skipped_long_runs")
            else:
                # samples: the logs of one instance number on the processes of one block of the world
                samples = {}
                for (w, ins), l in logs.items():
                    v = l.steps[0].vars[F.names(c)[0]]
                    p = tuple(int(round((v.a[q] - c.lower[q]) / c.h[q])) // v.n[q] if c.dims[q] > 1 else 0 for q in range(3))
                    samples.setdefault((w // parts, ins), {})[p] = l
                if len(samples) != c.N or any(len(v) != parts for v in samples.values()):
                    ck.violation(key + ":samples", "%d samples with %s parts were run instead of %d with %d" % (len(samples), sorted({len(v) for v in samples.values()}), c.N, parts), info)
                else:
                    ck.count("samples", c.N); ck.count("steps", sum(len(l.steps) for l in logs.values()))
                    for s in c.S: judge(ck, key, c, s, samples, d, c.N, info)
                    ck.sample(info)
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    report.main(report.Check("C18", rule="number of (statistic, functional, dimension, split in space, split over samples) classes; evaluations are values compared"), body)
