"""Output files and the in-situ Python hook: everything written at a step equals the
state a recorder plug-in saw at the same step of the same (deterministic) run."""
import os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, cfg, conform, ref, report, run, zoo

SPLITS = {1: [(2, 1, 1), (4, 1, 1), (3, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 3, 1)], 3: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 2, 2)]}
HOOK = '''
import numpy as np, json
class Hook(object):
    def __init__(self, parameters):
        self.p = dict(parameters); self.n = 0; self.log = []
    def write(self, conserved, grid, time, steps):
        pos = "_".join(str(int(i)) for i in grid["global_position"])
        self.name = "py_%s" % pos
        np.savez("%s_%d.npz" % (self.name, self.n), time=time, steps=steps, names=np.array(sorted(conserved.keys())),
                 **dict([("v_" + k, np.array(v)) for k, v in conserved.items()] + [("g_" + k, np.array(v)) for k, v in grid.items()]))
        self.log.append("w")
    def afterMPISync(self):
        self.log.append("s"); self.n += 1
    def finalize(self):
        json.dump({"log": self.log, "parameters": self.p}, open(self.name + ".json", "w"))
'''


def cases_of(ck, rng):
    cs = []
    for i in range(600 if ck.thorough else 72):
        eq = rng.choice(["burgers", "linear", "cubic", "buckleyleverett", "euler1", "euler2", "euler2", "euler3", "euler3"])
        c = zoo.draw(ck, "out-%d" % i, rng, eq=eq, boundary=rng.choice(["periodic", "neumann"]), kind=rng.choice(["smooth", "shock", "spike"]), cfl=.05, steps=4)
        if i % 3 == 0:
            sp = rng.choice(SPLITS[c.nd]); c.split, c.procs = sp, int(np.prod(sp))
        c.dims = tuple(rng.randrange(15, 21) * (c.split[d] if d < c.nd else 1) if d < c.nd else 1 for d in range(3))
        c.writer = ["netcdf", "netcdf", "python"][i % 3] if c.procs == 1 else ["netcdf", "python"][(i // 3) % 2]
        c.saves = rng.choice([None, None, 1, 2, 3, 5])
        c.init = rng.random() < .5
        cs.append(c)
    return cs


def netcdf_case(ck, c, R, d):
    import netCDF4
    fs = sorted(f for f in os.listdir(d) if f.endswith(".nc"))
    if fs != sorted("out_%d.nc" % k for k in range(R.nsteps())):
        ck.violation(c.key + ":files", "files %s for %d states handed to a writer" % (fs, R.nsteps()), c.describe()); return
    for k in range(R.nsteps()):
        U, cover = R.glob(k)
        with netCDF4.Dataset(os.path.join(d, "out_%d.nc" % k)) as ds:
            ds.set_auto_mask(False)
            got = sorted(v for v in ds.variables if v != "time")
            if got != sorted(R.eq.names):
                ck.violation(c.key + ":variables", "step %d: file holds %s, the solver %s" % (k, got, sorted(R.eq.names)), c.describe()); return
            t = np.array(ds["time"][:]).ravel()
            if t.size != 1 or t[0] != R.times()[k]:
                ck.violation(c.key + ":time", "file %d holds time %s, written at %.17g" % (k, t, R.times()[k]), c.describe()); return
            size = tuple(len(ds.dimensions[x]) for x in "xyz")
            if size != tuple(c.dims):
                ck.violation(c.key + ":size", "file %d has size %s, the grid %s" % (k, size, c.dims), c.describe()); return
            for i, n in enumerate(R.eq.names):
                v = ds[n]
                if sorted(v.dimensions) != ["x", "y", "z"]:
                    ck.violation(c.key + ":dims", "file %d: variable %s has dimensions %s" % (k, n, v.dimensions), c.describe()); return
                A = np.array(v[:]).transpose([v.dimensions.index(x) for x in "zyx"])
                ck.saw((c.eq, c.split, "netcdf", n), A.size); ck.count("file_variables")
                bad = A.view(np.int64) != U[i].view(np.int64) if A.dtype == np.float64 and A.shape == U[i].shape else np.ones(1, bool)
                if bad.any():
                    ck.violation(c.key, "file %d, variable %s (%s %s): %d values differ from the state in memory" % (k, n, A.dtype, A.shape, bad.sum()), c.describe()); return


def python_case(ck, c, R, d):
    import json
    for l in R.ranks():
        v = l.steps[0].vars[R.eq.names[0]]
        h = c.h
        pos = [int(round((v.a[q] - c.lower[q]) / h[q])) for q in range(3)]
        name = "py_" + "_".join(map(str, pos))
        for k, s in enumerate(l.steps):
            f = os.path.join(d, "%s_%d.npz" % (name, k))
            if not os.path.exists(f): ck.violation(c.key + ":call", "the hook was not called for step %d at position %s: %s" % (k, pos, sorted(x for x in os.listdir(d) if x.endswith("npz"))), c.describe()); return
            z = np.load(f)
            if float(z["time"]) != s.time or int(z["steps"]) != s.step:
                ck.violation(c.key + ":time", "hook called with time %.17g, step %d instead of %.17g, %d" % (z["time"], z["steps"], s.time, s.step), c.describe()); return
            if list(z["names"]) != sorted(R.eq.names): ck.violation(c.key + ":variables", "hook gets %s" % z["names"], c.describe()); return
            for n in R.eq.names:
                A, B = z["v_" + n], np.ascontiguousarray(s.arr(n)).ravel()
                ck.saw((c.eq, c.split, "python", n), A.size); ck.count("hook_variables")
                if A.shape != B.shape or (A.view(np.int64) != B.view(np.int64)).any():
                    ck.violation(c.key, "step %d, variable %s: the hook's data differs from the state in memory" % (k, n), c.describe()); return
            g = {q[2:]: tuple(z[q]) for q in z.files if q.startswith("g_")}
            w = {"origin": v.a, "top": v.b, "global_size": tuple(c.dims), "local_size": tuple(v.n), "global_position": tuple(pos)}
            for q in w:
                if q not in g or len(g[q]) != 3 or any(abs(x - y) > 1e-13 for x, y in zip(g[q], w[q])):
                    ck.violation(c.key + ":grid", "hook gets %s = %s, expected %s" % (q, g.get(q), w[q]), c.describe()); return
        if os.path.exists(os.path.join(d, "%s_%d.npz" % (name, len(l.steps)))): ck.violation(c.key + ":call", "the hook was called too often", c.describe()); return
        j = json.load(open(os.path.join(d, name + ".json")))
        if j["log"] != ["w", "s"] * len(l.steps): ck.violation(c.key + ":sync", "hook call order %s" % j["log"], c.describe()); return
        want = {"basename": "out", "custom": "text with <&> spaces"}
        if c.procs > 1: want.update(mpi_rank=str(l.rank), mpi_size=str(c.procs))
        for q in want:
            if j["parameters"].get(q) != want[q]: ck.violation(c.key + ":parameters", "hook parameter %s = %r, expected %r" % (q, j["parameters"].get(q), want[q]), c.describe()); return


def body(ck):
    b = build.ensure(("alsvinncli", "alsrec"))
    rec = os.path.join(b, "verif/libalsrec.so")
    rng = random.Random("C08-%d" % ck.seed)
    cs = cases_of(ck, rng)
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic; c.seed = ck.seed
        d = os.path.join(ck.scratch, "o%d" % i)
        env = {"ALSREC_MAX": 60}
        w = cfg.recorder(rec, saves=c.saves, initial=c.init)
        R = cases.execute(b, c, d + "r", extra_env=env, writer=w)
        w = {"type": c.writer, "basename": "out"}
        if c.writer == "python": w.update(pythonCode="load:hook.py", pythonClass="Hook", custom="text with <&> spaces")
        if c.saves is not None:
            w["numberOfSaves"] = c.saves
            if c.init: w["writeInitialTimestep"] = True
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "hook.py"), "w").write(HOOK)
        F = cases.execute(b, c, d, writer=w)
        shutil.rmtree(d + "r", ignore_errors=True)
        return c, R, F, d
    for a in range(0, len(cs), 32):
        for c, R, F, d in run.pool(one, list(enumerate(cs))[a:a + 32], 5):
            ck.count("runs_" + c.writer); ck.count("mpi_runs", int(c.procs > 1))
            if R.res.rc or R.res.timed_out or not R.logs or R.nsteps() >= 60: ck.count("skipped_stopped_runs")
            elif not all(l.finished for l in R.ranks()): ck.violation(c.key + ":finalize", "the writer plug-in was not told the end of the run", c.describe())
            elif F.res.rc or F.res.timed_out: ck.violation(c.key + ":run", "exit %s with writer %s: %s" % (F.res.rc, c.writer, F.res.tail(300)), c.describe())
            else:
                (netcdf_case if c.writer == "netcdf" else python_case)(ck, c, R, d)
                ck.sample({"case": c.describe(), "writer": c.writer, "saves": c.saves, "states": R.nsteps()})
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    report.main(report.Check("C08", rule="one value of one variable of one output file (or hook call) compared bitwise with the recorded state"), body)
