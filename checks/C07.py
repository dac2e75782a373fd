"""Saves: the files every writer, functional and statistic leaves behind, with their time
stamps, against the saves that were asked for, in runs that mix requests with
incommensurable intervals, few and many steps and awkward end times; averages over time
windows against the states a recorder saw in the same run."""
import os, sys, random, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cfg, nc, report, run, uq

SCRIPT = '''
from math import sin, pi
u = %r + %r * sin(2 * pi * (x - LO) / (UP - LO))
'''


def draw(rng, i):
    """One configuration: scale of time, number of steps, requests."""
    end = rng.choice([.1, .3, 1 / 3, .7, 1., 2., 1e-5, 1e5, .6, 1.1, rng.uniform(.5, 3), rng.uniform(1e-3, 1e-1), float("%.3g" % rng.uniform(.1, 9)), float("%.2g" % rng.uniform(.01, .9))])
    steps = rng.choice([.3, .8, 1.5, 3, 10, 10, 40, 150])
    n = rng.randrange(8, 20)
    c = cfg.Config(equation=rng.choice(["burgers", "linear"]), flux=rng.choice(["rusanov"]), reconstruction="none", integrator="forwardeuler", cfl=.4, endTime=end)
    c.integrator = rng.choice(["forwardeuler", "forwardeuler", "rungekutta2", "rungekutta3", "auto"])
    lo = rng.choice([0., -1., .5])
    h = end / steps / .4 * 1.1
    c.lower, c.upper, c.dim = (lo, 0., 0.), (lo + n * h, 1., 1.), (n, 1, 1)
    amp = 0. if rng.random() < .3 else .1
    c.script = "LO, UP = %r, %r\n" % (lo, c.upper[0]) + SCRIPT % (1., amp)
    c.constant = not amp
    c.h = h
    return c


def saves(end, N): return [end * k / N for k in range(N + 1)]


NS = [1, 1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 17, 20, 24, 31, 49, 64, 100]


def window(rng, end):
    while 1:
        T, r = end * rng.choice([.25, .5, .5, .6, .75, .8, .9, rng.random()]), end * rng.choice([.1, .2, .25, .05, .01, .4, .5, rng.random()])
        if rng.random() < .3: T = end - r                  # the window ends with the run
        if rng.random() < .2: r = T                        # it begins with the run
        if T + r <= end * (1 + 1e-12) and T - r >= -1e-12 * end: return T, r


def requests(rng, c, uqrun):
    """[(where, dict for the configuration, kind)]"""
    end, out = c.endTime, []
    def w(): return {"type": "netcdf", "basename": "r%d" % len(out)}
    if not uqrun:
        k = rng.choice(["saves"] * 3 + ["coarse", "window", "snapshots", "steps"])
        q = w()
        if k == "saves":
            q["numberOfSaves"] = rng.choice(NS + [200, 333])
            if rng.random() < .5: q["writeInitialTimestep"] = rng.choice([True, 1])
            elif rng.random() < .3: q["writeInitialTimestep"] = 0
        elif k == "coarse":
            for _ in range(100):
                q.update(numberOfSaves=rng.choice(NS), numberOfCoarseSaves=rng.randrange(1, 4), numberOfSkips=rng.randrange(0, 3))
                if (q["numberOfSkips"] + 1) * c.h * q["numberOfCoarseSaves"] < .45 * end / q["numberOfSaves"]: break
            else: k = "saves"; q = w(); q["numberOfSaves"] = 4
        elif k in ("window", "snapshots"):
            q["time"], q["timeRadius"] = window(rng, end)
            if k == "snapshots": q["numberOfSnapshots"] = rng.choice([1, 2, 3, 5, 8])
        out.append(("writer", q, k))
    for _ in range(rng.choice([0, 0, 1, 2, 4, 6]) if not uqrun else rng.choice([0, 1])):
        f = {"name": rng.choice(["identity", "moment"]), "degree": 1}
        k = rng.choice(["saves", "saves", "window", "snapshots"])
        if k == "saves": f["numberOfSaves"] = rng.choice(NS)
        else:
            f["time"], f["timeRadius"] = window(rng, end)
            if k == "snapshots": f["numberOfSnapshots"] = rng.choice([1, 2, 3, 5])
        f["writer"] = w(); out.append(("functional", f, k))
    if uqrun:
        for _ in range(rng.randrange(1, 5)):
            s = {"name": rng.choice(["meanvar", "onepointmoment", "bv"]), "p": 2, "writer": w()}
            s["numberOfSaves"] = rng.choice(NS[:14])
            if rng.random() < .4: s["writeInitialTimestep"] = rng.choice([True, 0])
            out.append(("statistic", s, "saves"))
    return out


def times(d, base):
    """Time stamps of the files base_<k>.nc by number."""
    out = {}
    for f in os.listdir(d):
        m = re.fullmatch(re.escape(base) + r"_(\d+)\.nc", f)
        if m:
            v = nc.read(os.path.join(d, f))[0]
            out[int(m.group(1))] = (float(np.ravel(v["time"])[0]) if "time" in v else None, v)
    return out


def expected(c, q, kind, where):
    end = c.endTime
    if kind == "saves":
        t = saves(end, q["numberOfSaves"])
        ini = bool(q.get("writeInitialTimestep")) if where != "functional" else True
        return t if ini else t[1:]
    if kind == "coarse":
        iv, dx = end / q["numberOfSaves"], (c.upper[0] - c.lower[0]) / c.dim[0] * (q["numberOfSkips"] + 1)
        C = q["numberOfCoarseSaves"]
        return [0.] + [k * iv + j * dx for k in range(1, q["numberOfSaves"] + 1) for j in range(-C, C + 1) if k < q["numberOfSaves"] or j <= 0]
    return None


def judge(ck, key, c, reqs, d, steps, info):
    """steps: [(time, u)] of every step as recorded, or None"""
    end = c.endTime
    for where, q, kind in reqs:
        if where == "statistic":
            names = [q["writer"]["basename"] + "_" + s for s in {"meanvar": ("mean", "variance"), "onepointmoment": ("m2",), "bv": ("bv_2",)}[q["name"]]]
        else: names = [q["basename"] if where == "writer" else q["writer"]["basename"]]
        k = "%s:%s-%s" % (key, where, kind)
        for base in names:
            T = times(d, base); have = sorted(T)
            if have != list(range(len(have))): ck.violation(k + ":numbers", "the files of a %s are numbered %s" % (where, have), dict(info, request=q)); continue
            got = [T[i][0] for i in have]
            ck.saw((where, kind, "uq" if c.uq else "", c.procs > 1), max(1, len(got))); ck.count("files", len(got))
            if None in got: ck.violation(k + ":stamp", "file without time", dict(info, request=q)); continue
            want = expected(c, q, kind, where)
            if want is not None:
                if len(want) != len(got): ck.violation(k + ":count", "%s of %s (end time %.17g) left %d files instead of %d; times %s" % (kind, where, end, len(got), len(want), got[-4:]), dict(info, request=q)); continue
                e = [abs(a - b) for a, b in zip(got, want)]
                tol = 1e-11 * end
                if kind == "coarse" and len(got) > 1: tol = 1e-9 * end
                if e and max(e) > tol:
                    i = int(np.argmax(e)); ck.violation(k + ":time", "save %d of %s was made at %.17g instead of %.17g" % (i, where, got[i], want[i]), dict(info, request=q)); continue
                # the same instant as another request: the same state
                if where != "statistic" and not c.uq:
                    for i in have:
                        for v, x in T[i][1].items():
                            if v != "time": ck.states.setdefault((round(got[i] / end * 1e9), v), []).append((base, got[i], x))
            elif kind == "steps":
                if got[0] != 0 or any(b <= a for a, b in zip(got, got[1:])) or got[-1] < end: ck.violation(k + ":steps", "every step was asked for: times %s ... %s" % (got[:3], got[-2:]), dict(info, request=q))
            else:
                if len(got) != 1: ck.violation(k + ":count", "%d files for one time window" % len(got), dict(info, request=q)); continue
                if where == "writer":
                    if abs(got[0] - q["time"]) > 1e-12 * end: ck.violation(k + ":time", "average over a window around %.17g is stamped %.17g" % (q["time"], got[0]), dict(info, request=q)); continue
                    x = T[0][1]["u"]
                    a, b = q["time"] - q["timeRadius"], q["time"] + q["timeRadius"]
                    if c.constant:
                        ck.count("window_averages")
                        if abs(x - 1.).max() > 1e-9: ck.violation(k + ":average", "the average of a constant solution 1 over the window [%.6g, %.6g] of [0, %.6g] is %.15g" % (a, b, end, x.ravel()[0]), dict(info, request=q))
                    elif steps:
                        st = steps
                        if kind == "snapshots":
                            at = [a + (b - a) * j / (2 * q["numberOfSnapshots"]) for j in range(1, 2 * q["numberOfSnapshots"] + 1)]
                            st = [next((s for s in steps if s[0] >= t - 1e-10 * end), None) for t in at]
                            if None in st or any(abs(s[0] - t) > 1e-10 * end for s, t in zip(st, at)): ck.violation(k + ":instants", "not all %d snapshot times of the window were reached" % len(at), dict(info, request=q)); continue
                        last, acc = 0., 0.
                        for t, u in st:
                            w = min(t, b) - max(last, a)
                            if w > 0: acc = acc + w * u
                            last = t
                        acc = acc / (b - a); ck.count("window_averages")
                        e = float(abs(acc - x).max())
                        if e > 1e-9: ck.violation(k + ":average", "average over the window [%.6g, %.6g] of [0, %.6g]: difference %.3g to the average of the computed states" % (a, b, end, e), dict(info, request=q))


def body(ck):
    b = build.ensure(("alsvinncli", "alsuqcli", "alsrec"))
    rng = random.Random("C07-%d" % ck.seed)
    jobs = []
    for i in range(1500 if ck.thorough else 190):
        c = draw(rng, i); u = i % 4 == 3
        c.procs = rng.choice([1, 1, 1, 2]) if i % 3 == 0 else 1
        c.reqs = requests(rng, c, u); c.key = "%s-%d" % ("uq" if u else "run", i)
        if u:
            c.N = rng.choice([1, 2, 2, 4]); c.script = "LO, UP = %r, %r\n" % (c.lower[0], c.upper[0]) + "from math import sin, pi\nu = 1. + .3 * K + .1 * sin(2 * pi * (x - LO) / (UP - LO))\n"
            c.constant = False; c.parameters = [("K", 0.)]
            c.uq = uq.tree(c.N, [("K", 1, "uniform", {})], [q for w, q, k in c.reqs if w == "statistic"])
        c.writer = next((q for w, q, k in c.reqs if w == "writer"), None)
        c.functionals = [q for w, q, k in c.reqs if w == "functional"] or None
        jobs.append(c)
    # the last request of a kind coincides with the end of the run only up to rounding, while another meets it exactly
    for i in range(400 if ck.thorough else 48):
        c = draw(rng, i); c.key = "edge-%d" % i; c.procs = 1; c.endTime = end = rng.choice([rng.uniform(.1, 9), .1 * rng.randrange(1, 40), float("%.2g" % rng.uniform(.01, .9))])
        c.h = end / rng.choice([3, 10, 30]) / .4; c.upper = (c.lower[0] + c.dim[0] * c.h, 1., 1.)
        c.script = "LO, UP = %r, %r\n" % (c.lower[0], c.upper[0]) + SCRIPT % (1., .1); c.constant = False
        w = {"type": "netcdf", "basename": "r0"}; c.reqs = [("functional", {"name": "identity", "numberOfSaves": rng.choice([1, 2, 3]), "writer": {"type": "netcdf", "basename": "r1"}}, "saves")]
        if i % 2:
            r = end * rng.choice([.1, .3, .7, rng.random()]) / 2; w.update(time=end - r, timeRadius=r, numberOfSnapshots=rng.choice([1, 2, 3, 7])); k = "snapshots"
        else:
            k = "coarse"; w.update(numberOfSaves=rng.choice([1, 2, 3, 5, 7, 9, 11, 13]), numberOfCoarseSaves=1, numberOfSkips=0)
            f = .4 * end / w["numberOfSaves"] / c.h
            if f < 1: c.h *= f; c.upper = (c.lower[0] + c.dim[0] * c.h, 1., 1.); c.script = "LO, UP = %r, %r\n" % (c.lower[0], c.upper[0]) + SCRIPT % (1., .1)
        c.reqs.insert(0, ("writer", w, k)); c.writer = w; c.functionals = [c.reqs[1][1]]
        jobs.append(c)
    if ck.only: jobs = [j for j in jobs if ck.only in j.key]

    def one(ij):
        i, c = ij
        d = os.path.join(ck.scratch, "s%d" % i); exe = os.path.join(b, "alsvinncli/alsvinncli")
        res, steps = None, None
        if c.uq: res, _ = uq.execute(b, c, d, c.procs if c.N % c.procs == 0 else 1, timeout=120)
        else:
            c.write(d)
            res = run.execute(run.mpi([exe, "config.xml"] + (["--multi-x", "2"] if c.procs == 2 else []), c.procs if c.dim[0] % 2 == 0 else 1), d, timeout=120) if c.procs == 1 or c.dim[0] % 2 == 0 else run.execute([exe, "config.xml"], d, timeout=120)
            w, q, k = c.reqs[0]
            if w == "writer" and k in ("window", "snapshots") and not c.constant:
                # the same steps, every one recorded: the identity functional asks for the same instants
                f = {"name": "identity", "time": q["time"], "timeRadius": q["timeRadius"], "writer": {"type": "netcdf", "basename": "twin"}}
                if k == "snapshots": f["numberOfSnapshots"] = q["numberOfSnapshots"]
                e = c.copy(writer=cfg.recorder(os.path.join(b, "verif/libalsrec.so")), functionals=[f] + (c.functionals or []))
                e.write(d + "t"); run.execute([exe, "config.xml"], d + "t", timeout=120)
                l = run.logs(d + "t").get((0, 0))
                if l: steps = [(s.time, s.arr("u")) for s in l.steps]
        return c, d, res, steps
    for a in range(0, len(jobs), 48):
        for c, d, res, steps in run.pool(one, list(enumerate(jobs))[a:a + 48]):
            info = {"key": c.key, "end": c.endTime, "lower": c.lower, "upper": c.upper, "dim": c.dim, "requests": c.reqs, "integrator": c.integrator, "equation": c.equation}
            ck.count("runs"); ck.count("requests", len(c.reqs))
            if res.rc or res.timed_out: ck.violation(c.key + ":run", "%s: %s" % ("did not end" if res.timed_out else "exit %s" % res.rc, res.tail(300)), info)
            else:
                ck.states = {}
                judge(ck, c.key, c, c.reqs, d, steps, info); ck.sample(info)
                for (t, v), l in ck.states.items():
                    l = [x for x in l if v == "u"]
                    if len(l) > 1:
                        ck.count("coinciding_saves", len(l) - 1)
                        for x in l[1:]:
                            if x[1] == l[0][1] and x[2].shape == l[0][2].shape and not np.array_equal(x[2], l[0][2]): ck.violation(c.key + ":same", "two requests saved different states at the time %.17g (%s, %s)" % (x[1], l[0][0], x[0]), info)
            for x in (d, d + "t"): shutil.rmtree(x, ignore_errors=True)


if __name__ == "__main__":
    report.main(report.Check("C07", rule="number of (request, kind, uncertainty run or not, several processes) classes; evaluations are files whose number and time were compared"), body)
