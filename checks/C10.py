"""MPI: the history, time steps and output files of runs on several processes,
with randomly delayed messages, equal those of the run on one process."""
import json, os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, nc, cases, conform, ref, report, run, zoo

SPLITS = {1: [(2, 1, 1), (3, 1, 1), (4, 1, 1), (5, 1, 1)],
          2: [(2, 1, 1), (1, 2, 1), (2, 2, 1), (3, 1, 1), (1, 4, 1), (3, 2, 1), (2, 3, 1)],
          3: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (1, 2, 2), (2, 2, 2), (1, 3, 2)]}


def monitors(ck, key, cwd, n, rep):
    seen, multi = 0, sum(x > 1 for x in rep["split"]) > 1
    for r in range(n):
        p = os.path.join(cwd, "pmpi.%d" % r)
        if not os.path.exists(p): continue
        m = json.load(open(p)); seen += 1
        for k in ("sends", "recvs", "collectives", "delays"): ck.count("mpi_" + k, m[k])
        bad = []
        # With splits in several directions the transmitted strips include corner ghost cells, which
        # no scheme reads, while those are being received: see DESIGN.md.
        ck.count("corner_overlaps", m["changed"] if multi else 0)
        if m["changed"] and not multi: bad.append("%d send buffers were modified before the send was complete" % m["changed"])
        if m["truncated"]: bad.append("%d messages had not the size of the posted receive" % m["truncated"])
        if m["leftover"]: bad.append("%d requests were never completed" % m["leftover"])
        if m["concurrent"] and m["level"] < m["multiple"]: bad.append("concurrent MPI calls at thread level %d" % m["level"])
        if m["offthread"] and m["level"] < m["serialized"]: bad.append("MPI called from another thread at thread level %d" % m["level"])
        ck.saw(key + ":monitor", 1)
        if bad: ck.violation(key + ":mpi", "rank %d: %s" % (r, "; ".join(bad)), rep); return
    if not seen: ck.violation(key + ":mpi", "no process reached the end of the run in order", rep)


def compare(ck, S, R, tol=1e-13):
    c = R.case
    if R.res.timed_out: ck.violation(c.key + ":hang", "the run did not terminate", c.describe()); return
    if R.res.rc != S.res.rc and (R.res.rc == 0) != (S.res.rc == 0):
        ck.violation(c.key + ":exit", "exit %d on %d processes, %d on one: %s" % (R.res.rc, c.procs, S.res.rc, R.res.tail(300)), c.describe()); return
    if len(R.ranks()) != c.procs:
        ck.violation(c.key + ":ranks", "%d of %d processes recorded steps" % (len(R.ranks()), c.procs), c.describe()); return
    n = {len(l.steps) for l in R.ranks()}
    if R.res.rc == 0 and n != {S.nsteps()}:
        ck.violation(c.key + ":steps", "steps per process %s, %d on one process" % (sorted(n), S.nsteps()), c.describe()); return
    for k in range(min(min(n), S.nsteps())):
        T = {l.steps[k].time for l in R.ranks()}
        if len(T) != 1 or abs(T.pop() - S.log.steps[k].time) > 1e-13 * abs(S.log.steps[-1].time):
            ck.violation(c.key + ":time", "step %d: times differ between processes or from the run on one process" % k, c.describe()); return
        U, cover = R.glob(k); V, _ = S.glob(k)
        if not (cover == 1).all(): ck.violation(c.key + ":tiling", "cells covered %d to %d times" % (cover.min(), cover.max()), c.describe()); return
        m = np.abs(V).max()
        d = np.abs(U - V)
        bad = ~(d <= tol * m) & ~(np.isnan(U) & np.isnan(V))
        ck.saw((c.eq, c.flux, c.recon, c.integ, c.diff, c.boundary, c.split), U.size)
        ck.count("steps_compared")
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(d, nan=1e300), -1)), d.shape)
            ck.violation(c.key, "step %d: %s in global cell (z,y,x)=%s is %.17g on %s processes, %.17g on one"
                         % (k, R.eq.names[i[0]], tuple(map(int, i[1:])), U[i], "x".join(map(str, c.split)), V[i]), c.describe()); return


def netcdf(d):
    return {f: nc.read(os.path.join(d, f))[0] for f in nc.files(d)}


def body(ck):
    b = build.ensure(("alsvinncli", "alsrec", "alspmpi"))
    pm = os.path.join(b, "verif/libalspmpi.so")
    rng = random.Random("C10-%d" % ck.seed)
    cs = []
    for i in range(250 if ck.thorough else 26):
        eq = rng.choice(["burgers", "burgers", "euler1", "euler2", "euler2", "euler3", "linear", "cubic", "buckleyleverett"])
        c = zoo.draw(ck, "pair-%d" % i, rng, eq=eq, steps=8 if ck.thorough else 5, boundary=rng.choice(["periodic", "neumann"]),
                     kind=rng.choice(["noise", "shock", "mixed", "spike"]))
        sp = SPLITS[c.nd][i % len(SPLITS[c.nd])] if rng.random() < .5 else rng.choice(SPLITS[c.nd])
        c.split, c.procs = sp, int(np.prod(sp))
        base = {1: 15, 2: 15, 3: 15}[c.nd]
        c.dims = tuple((base + rng.randrange(4)) * (sp[d] if sp[d] > 1 else 1) if d < c.nd else 1 for d in range(3))
        cs.append(c)
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic; c.seed = ck.seed
        s = c.copy(c.key); s.procs, s.split = 1, (1, 1, 1)
        d = os.path.join(ck.scratch, "r%d" % i)
        c.P = s.P = cases.initial(c)
        S = cases.execute(b, s, d + "s")
        e = {"LD_PRELOAD": pm, "ALSPMPI_OUT": os.path.join(d, "pmpi"), "ALSPMPI_SEED": str(ck.seed * 1000 + i), "ALSPMPI_US": [300, 3000, 0][i % 3]}
        R = cases.execute(b, c, d, extra_env=e)
        return S, R, d
    for a in range(0, len(cs), 32):
        for S, R, d in run.pool(one, list(enumerate(cs))[a:a + 32], 3):
            ck.count("pairs")
            if not S.logs or S.nsteps() < 1 or (S.nsteps() < 2 and S.res.rc == 0):
                ck.violation(R.case.key + ":run", "single-process run failed: " + S.res.tail(300), R.case.describe())
            else:
                compare(ck, S, R)
                if R.res.rc == 0: monitors(ck, R.case.key, d, R.case.procs, R.case.describe())
                ck.sample({"case": R.case.describe(), "steps": R.nsteps()})
            shutil.rmtree(d, ignore_errors=True); shutil.rmtree(d + "s", ignore_errors=True)

    # output files
    def files(i):
        eq = ["burgers", "euler1", "euler2", "euler3"][i % 4]
        c = zoo.draw(ck, "files-%d" % i, random.Random("%d-%d" % (ck.seed, i)), eq=eq, kind="shock", cfl=.1, boundary=["periodic", "neumann"][i % 2])
        sp = SPLITS[c.nd][(i // 4 + i) % len(SPLITS[c.nd])]
        c.split, c.procs = sp, int(np.prod(sp)); c.seed = ck.seed
        c.dims = tuple(16 * (sp[d] if sp[d] > 1 else 1) if d < c.nd else 1 for d in range(3))
        s = c.copy(c.key); s.procs, s.split = 1, (1, 1, 1)
        c.P = s.P = cases.initial(c)
        w = {"type": "netcdf", "basename": "out", "numberOfSaves": 3, "writeInitialTimestep": True}
        d = os.path.join(ck.scratch, "f%d" % i)
        S = cases.execute(b, s, d + "s", writer=w)
        c.end = s.end
        R = cases.execute(b, c, d, writer=w, extra_env={"LD_PRELOAD": pm, "ALSPMPI_US": 300})
        return c, S.res, R.res, netcdf(d + "s"), netcdf(d)
    for c, s, r, A, B in run.pool(files, range(60 if ck.thorough else 8), 4):
        if s.rc or r.rc or r.timed_out:
            if (s.rc == 0) != (r.rc == 0): ck.violation(c.key + ":exit", "exit %d, on one process %d: %s" % (r.rc, s.rc, r.tail(300)), c.describe())
            continue
        if sorted(A) != sorted(B) or not A: ck.violation(c.key + ":files", "files %s, on one process %s" % (sorted(B), sorted(A)), c.describe()); continue
        for f in A:
            for v in sorted(set(A[f]) | set(B[f])):
                ok = v in A[f] and v in B[f] and A[f][v].shape == B[f][v].shape and np.allclose(A[f][v], B[f][v], rtol=1e-12, atol=1e-13 * max(1, np.abs(A[f][v]).max()), equal_nan=True)
                ck.saw(("file", c.eq, c.split, v), 1); ck.count("file_variables")
                if not ok: ck.violation(c.key + ":" + v, "%s: variable %s differs from the run on one process" % (f, v), c.describe())


if __name__ == "__main__":
    report.main(report.Check("C10", rule="global state of one step (or one variable of one output file) of a run on several processes compared with the run on one process"), body)
