"""Time steps: each recorded step equals the CFL formula (global wave speeds, cell
widths) or lands on a requested output time; runs end at the right step."""
import os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, cfg, conform, ref, report, run, zoo

SPLITS = {1: [(2, 1, 1), (4, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1)], 3: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1)]}


def outputs(rng, end, rec):
    """Functionals whose output requests shorten time steps; returns the requested times and rasters."""
    fs, want, land = [], [], []
    for j in range(rng.randrange(0, 4)):
        w = dict(cfg.recorder(rec, "f%d" % j))
        if rng.random() < .6:
            n = rng.choice([1, 2, 3, 5, 7, 11])
            fs.append({"name": "identity", "numberOfSaves": n, "writer": w})
            want += [end * (k + 1) / n for k in range(n)]
        else:
            t, r, n = end * rng.uniform(.2, .9), end * rng.uniform(.02, .3), rng.choice([1, 2, 3, 5])
            fs.append({"name": "identity", "time": t, "timeRadius": r, "numberOfSnapshots": n, "writer": w})
            a = max(t - r, 0)
            want += [a + k * r / n for k in range(1, 3 * n + 2) if a + k * r / n <= t + r * (1 + 1e-9)] + [t + r] * (t > r)
            land.append((a, r / n))               # the raster of a window goes on behind its end
    return fs, sorted(want), land


def examine(ck, R, want, land):
    c, s = R.case, R.case.scheme()
    if R.res.timed_out or not R.logs or R.nsteps() < 1:
        ck.violation(c.key + ":run", "run failed or does not end (exit %s, %d steps): %s" % (R.res.rc, R.nsteps(), R.res.tail(300)), c.describe()); return
    if R.res.rc != 0: ck.count("stopped_runs"); return      # invalid state: judged elsewhere
    T = R.times(); end = c.end
    for l in R.ranks():
        if [x.time for x in l.steps] != list(T): ck.violation(c.key + ":ranks", "processes disagree on the times of the steps", c.describe()); return
    bad = None
    if T[0] != 0: bad = "starts at time %g" % T[0]
    elif not (np.diff(T) > 0).all(): bad = "times do not increase strictly: %s" % T
    elif T[-1] < end or (len(T) > 1 and T[-2] >= end): bad = "end time %.17g, last steps at %s" % (end, T[-2:])
    if bad: ck.violation(c.key + ":end", bad, c.describe()); return
    g = s.ghosts()
    for k in range(len(T) - 1):
        U = R.glob(k)[0]
        ws = s.rhs(s.pad(U, g), g)[1]
        lim, dt = s.dt(ws), T[k + 1] - T[k]
        ck.saw(c.key); ck.count("steps")
        if not (0 < dt <= lim * (1 + 1e-10)):
            ck.violation(c.key, "step %d: time step %.17g exceeds the CFL limit %.17g" % (k, dt, lim), c.describe()); return
        tol = 1e-11 * end
        if dt < lim * (1 - 1e-10):
            ck.count("shortened_steps")
            if not any(abs(T[k + 1] - w) <= tol for w in want) and not any(abs(x - round(x)) * q <= tol for a, q in land for x in [(T[k + 1] - a) / q]):
                ck.violation(c.key, "step %d: time step %.17g, the CFL limit is %.17g and %.17g is no requested output time" % (k, dt, lim, T[k + 1]), c.describe()); return
        over = [w for w in want if T[k] + tol < w < T[k + 1] - tol]
        if over: ck.violation(c.key, "step %d from %.17g to %.17g passes the requested output time %.17g" % (k, T[k], T[k + 1], over[0]), c.describe()); return
        if k + 2 == len(T): ck.count("final_steps")
    ck.sample({"case": c.describe(), "steps": len(T) - 1, "requested": want})


def body(ck):
    b = build.ensure()
    rec = os.path.join(b, "verif/libalsrec.so")
    rng = random.Random("C06-%d" % ck.seed)
    cs = []
    for i in range(1500 if ck.thorough else 110):
        c = zoo.draw(ck, "run-%d" % i, rng, boundary=rng.choice(["periodic", "neumann"]), cfl=rng.choice(["auto", .1, .3, .45]),
                     kind=rng.choice(["shock", "smooth", "spike", "noise", "shock", "smooth", "super"]), steps=rng.choice([3, 6, 12]))
        if c.kind == "super" and not c.eq.startswith("euler"): c.kind = "mixed"
        if rng.random() < .3: c.recon = "none"
        if c.flux == "central": c.kind, c.cfl = "smooth", .1
        if c.diff: c.cfl = .05
        if c.kind in ("noise", "mixed", "super") and c.cfl == "auto": c.cfl = .1
        if i % 5 == 0:
            sp = rng.choice(SPLITS[c.nd]); c.split, c.procs = sp, int(np.prod(sp))
            c.dims = tuple((64, 32, 32)[d] if d < c.nd else 1 for d in range(3))
        cs.append(c)
    if ck.only: cs = [c for c in cs if ck.only in c.key]

    def one(ic):
        i, c = ic; c.seed = ck.seed
        r = random.Random("%s-%d" % (c.key, ck.seed))
        d = os.path.join(ck.scratch, "r%d" % i)
        cases.config(c, rec, d)                      # fixes the end time
        fs, want, land = outputs(r, c.end, rec) if r.random() < .6 else ([], [], [])
        R = cases.execute(b, c, d, functionals=fs or None)
        shutil.rmtree(d, ignore_errors=True)
        return R, want, land
    for a in range(0, len(cs), 64):
        for R, want, land in run.pool(one, list(enumerate(cs))[a:a + 64]):
            ck.count("runs"); ck.count("mpi_runs", int(R.case.procs > 1))
            examine(ck, R, want, land)


if __name__ == "__main__":
    report.main(report.Check("C06", rule="one recorded time step compared with the CFL limit from the recorded state and the requested output times"), body)
