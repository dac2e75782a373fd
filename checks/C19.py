"""Functionals: every file written by a functional (at instants, and integrated over a
time window) against the defining sum over the states a recorder plug-in saw at every
step of the same run; with several processes each part is compared."""
import os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, nc, report, run, zoo
from vf.functional import names, value

SPLITS = {1: [(2, 1, 1), (3, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1)], 3: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1)]}


def functionals(c, rng):
    eu, nd = c.eq.startswith("euler"), c.nd
    fs = [{"name": "identity"}, {"name": "moment", "degree": rng.randrange(1, 5)}, {"name": "moment", "degree": rng.randrange(1, 3)},
          {"name": "structure_base", "direction": rng.randrange(nd), "p": rng.choice([1., 2., 3., 1.5]), "numberOfH": rng.randrange(1, 9)}]
    if nd < 3: fs.append({"name": "bv", "degree": rng.randrange(1, 4)})
    if c.procs == 1: fs.append({"name": "structure_cube", "p": rng.choice([1., 2., 3., 4., 5., 2.5, .5]), "numberOfH": rng.randrange(2, 6 if nd < 3 else 4)})
    if nd == 2:
        lo, hi = c.range; w = hi - lo + 1.; v = {"minValue": lo - w * rng.uniform(.6, 1.5), "maxValue": hi + w * rng.uniform(.6, 1.5)}
        w = dict(v, degree_k=rng.randrange(4), degree_n=rng.randrange(4), degree_m=rng.randrange(4)); pw = dict(v, degree=rng.randrange(6))
        if rng.random() < .4: w["variables"] = " ".join(rng.sample(names(c), rng.randrange(1, len(names(c)) + 1)))
        fs += [dict(w, name="legendre"), dict(pw, name="legendre_pointwise")]
    if eu and c.gamma: fs.append({"name": "log_entropy"})
    rng.shuffle(fs)
    out = []
    for i, f in enumerate(fs[:rng.randrange(3, 7)]):
        f = dict(f); kind = rng.choice(["saves", "saves", "window", "window", "snapshots"])
        f["_kind"] = kind
        if kind == "saves": f["numberOfSaves"] = rng.choice([1, 2, 3, 5])
        else:
            f["time"], f["timeRadius"] = c.end * rng.choice([.25, .5, .6, .75]), c.end * rng.choice([.1, .2, .25, .45, .7])
            if kind == "snapshots":
                f["numberOfSnapshots"] = rng.choice([1, 2, 3])
        f["writer"] = {"type": "netcdf", "basename": "f%d" % i}
        out.append(f)
    return out


def judge(ck, c, R, d, fs):
    t = R.times(); parts = R.ranks()
    for i, f in enumerate(fs):
        fk = "%s:%s-%s" % (c.key, f["name"], f["_kind"]); info = dict(c.describe(), functional=f)
        # which steps, with which weights, go into which file
        if f["_kind"] == "saves":
            iv = c.end / f["numberOfSaves"]; files = []; k = 0
            for s in range(len(t)):
                T = k * iv
                if abs(T - c.end) < 1e-3 * iv: T = c.end
                if t[s] >= T: files.append([(s, 1.0, 1.0)]); k += 1
        else:
            T, r = f["time"], f["timeRadius"]
            if f["_kind"] == "window": called = list(range(len(t)))
            else:
                st, iv, k, called = max(T - r, 0.), r / f["numberOfSnapshots"], 1, []
                for s in range(len(t)):
                    w = k * iv + st
                    if abs(w - min(T + r, c.end)) < 1e-3 * iv: w = min(T + r, c.end)
                    if t[s] >= w: called.append(s); k += 1
            last = 0.; ws = []
            for s in called:
                dist = abs(t[s] - T)
                lo = t[s] - max(last, T - r) if t[s] >= T - r else 0.
                if dist < r * (1 - 1e-12): ws.append((s, lo, t[s] - last if f["_kind"] == "window" else lo))
                elif dist <= r * (1 + 1e-12): ws.append((s, 0., lo))        # exactly at the edge: either way
                last = t[s]
            files = [ws]
            # what the window misses at its ends is less than one step on each side
        fn = [os.path.join(d, "f%d_%d.nc" % (i, k)) for k in range(len(files) + 1)]
        ex = [os.path.exists(x) for x in fn]
        if ex != [True] * len(files) + [False]:
            ck.violation(fk + ":files", "expected %d files of functional %s, found %s" % (len(files), f["name"], sorted(x for x in os.listdir(d) if x.startswith("f%d_" % i))), info); continue
        for k, ws in enumerate(files):
            V, attrs, dims = nc.read(fn[k])
            for n, name in enumerate(R.eq.names):
                if name not in V: ck.violation(fk + ":variables", "file %d has no variable %s" % (k, name), info); return
                for l in parts:
                    v0 = l.steps[0].vars[R.eq.names[0]]
                    pos = [int(round((v0.a[q] - c.lower[q]) / c.h[q])) // v0.n[q] if c.dims[q] > 1 else 0 for q in range(3)]
                    lo = hi = tol = 0.
                    shape = None
                    for s, w0, w1 in ws:
                        U = np.stack([l.steps[s].arr(q) for q in R.eq.names])
                        x, size = value(f, n, U, pos, c, c.gamma or 1.4); shape = x.shape
                        a, b = w0 * x, w1 * x
                        lo = lo + np.minimum(a, b); hi = hi + np.maximum(a, b); tol = tol + 1e-12 * size * max(w0, w1, 1e-9)
                    if shape is None:
                        x, _ = value(f, n, np.stack([l.steps[0].arr(q) for q in R.eq.names]), pos, c, c.gamma or 1.4); shape = x.shape; lo = hi = np.zeros(shape); tol = np.zeros(shape)
                    if f["name"] == "log_entropy" and n != R.eq.nv - 1 or len(shape) == 1: shape = (1, 1, 1); lo, hi, tol = (np.reshape(q, (1, 1, 1)) for q in (lo, hi, tol))
                    want = tuple(shape[2 - q] * c.split[q] for q in range(3))
                    got = V[name]
                    if got.shape != want[::-1]: ck.violation(fk + ":shape", "file %d variable %s has size %s instead of %s" % (k, name, got.shape[::-1], want), info); return
                    G = got[tuple(slice(pos[q] * shape[2 - q], (pos[q] + 1) * shape[2 - q]) for q in (2, 1, 0))]
                    bad = ~((G >= lo - tol) & (G <= hi + tol))
                    ck.saw((f["name"], f["_kind"], c.nd, c.procs > 1, c.eq[:5]), G.size); ck.count("files_values", G.size)
                    if len(ws): ck.count("integrated_steps", len(ws))
                    if bad.any():
                        j = tuple(np.argwhere(bad)[0])
                        ck.violation(fk, "%s (%s, %s) of %s, file %d, entry %s on part %s: %.15g, by definition %.15g..%.15g" % (
                            f["name"], f["_kind"], {q: f[q] for q in f if q not in ("name", "writer", "_kind")}, name, k, j[::-1], pos, G[j], np.broadcast_to(lo, G.shape)[j], np.broadcast_to(hi, G.shape)[j]), info); return


def body(ck):
    b = build.ensure(("alsvinncli", "alsrec"))
    rng = random.Random("C19-%d" % ck.seed)
    cs = []
    for i in range(900 if ck.thorough else 110):
        eq = rng.choice(["burgers", "cubic", "euler1", "euler2", "euler2", "euler3", "linear"])
        nd = None if eq.startswith("euler") else rng.choice([1, 2, 2, 3])
        k = {} if nd is None else {"nd": nd}
        c = zoo.draw(ck, "functional-%d" % i, rng, eq=eq, boundary=rng.choice(["periodic", "neumann"]), kind=rng.choice(["smooth", "shock", "spike"]), cfl=.1, steps=rng.choice([4, 8]), **k)
        c.seed = ck.seed
        if i % 4 == 0: c.split = rng.choice(SPLITS[c.nd]); c.procs = int(np.prod(c.split))
        n = {1: (24, 40), 2: (15, 19), 3: (13, 15)}[c.nd]
        c.dims = tuple(rng.randrange(*n) * (c.split[q] if c.procs > 1 else 1) if q < c.nd else 1 for q in range(3))
        if c.P is None: c.P = cases.initial(c)
        s = c.scheme(); U = s.eq.to_cons(c.P)
        w = [float(np.max(s.eq.speed(U, q))) or 1. for q in range(c.nd)]
        c.end = float("%.6g" % (s.dt(w) * (c.steps - .5)))
        c.range = float(U.min()), float(U.max())
        c.F = functionals(c, rng); cs.append(c)
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic
        d = os.path.join(ck.scratch, "f%d" % i)
        fs = [{k: v for k, v in f.items() if k != "_kind"} for f in c.F]
        R = cases.execute(b, c, d, extra_env={"ALSREC_MAX": 300}, functionals=fs)
        return c, R, d
    for a in range(0, len(cs), 32):
        for c, R, d in run.pool(one, list(enumerate(cs))[a:a + 32], 5):
            ck.count("mpi_runs", int(c.procs > 1)); ck.count("runs")
            if not R.logs or R.nsteps() >= 300 or (R.res.rc and "obey" in R.res.out + R.res.err): ck.count("skipped_stopped_runs"); ck.count("stopped_%d" % bool(R.logs))
            elif R.res.rc or R.res.timed_out: ck.violation(c.key + ":run", "exit %s: %s" % (R.res.rc, R.res.tail(300)), c.describe())
            else:
                judge(ck, c, R, d, c.F)
                ck.sample({"case": c.describe(), "functionals": c.F, "steps": R.nsteps()})
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    report.main(report.Check("C19", rule="number of (functional, kind of output, dimension, several processes, equation) classes; evaluations are values compared"), body)
