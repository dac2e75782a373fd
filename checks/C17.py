"""Samples of uncertainty runs: the initial state of every sample is made of nothing but its
parameters, so that the recorder plug-in (every process, every sample) shows which samples
were run and with which parameters; compared across process layouts, across repetitions,
across sample ranges and with the configured distribution."""
import os, sys, collections, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cfg, nc, report, run, uq

SCRIPT = {
    "array": '''
def init_global(u, nx, ny, nz, ax, ay, az, bx, by, bz):
    import numpy as _np
    P = _np.concatenate([_np.atleast_1d(q) for q in (%s)])
    for i in range(nx): u[i, :, :] = P[i %% %d %% len(P)]
''',
    "cell": '''
import numpy as _np
_P = _np.concatenate([_np.atleast_1d(q) for q in (%s)])
u = _P[int(x * %d) %% %d %% len(_P)]
'''}
NAMES = ["K", "a", "bb", "X1", "zeta", "Q", "sigma_2", "m"]


def params(rng, lib, one_d=False, dll=True):
    out = []
    for nm in rng.sample(NAMES, rng.randrange(1, 5)):
        lo = rng.uniform(-3, 2); k = {"lower": lo, "upper": lo + rng.uniform(.1, 4)} if rng.random() < .7 else {}
        out.append((nm, rng.randrange(1, 5), "uniform", k))
    if one_d: out.append(("h1", 1, "uniform1d", {"a": rng.uniform(-2, 0), "b": rng.uniform(.5, 3)}))
    if dll:
        out.append(("d1", rng.randrange(1, 4), "dll", {"library": lib, "make_parameters_function": "dist_make", "set_parameter_function": "dist_set",
                   "delete_parameters_function": "dist_free", "create_function": "dist_create", "delete_function": "dist_delete",
                   "generator_function": "dist_generate", "scale": rng.choice([1., 2.5])}))
    rng.shuffle(out)
    return out


def config(P, N, start, b, writer, split, style="array", nlocal=None):
    D = sum(p[1] for p in P); n = max(8, D)
    names = "".join(p[0] + ", " for p in P)           # in the order of the configuration
    dims = tuple(n * split[q] if q == 0 else max(1, split[q] * 6 if split[q] > 1 else 1) for q in range(3))
    script = SCRIPT[style] % ((names, n) if style == "array" else (names, dims[0], n))
    c = cfg.Config(name="uq", equation="burgers", flux="godunov", reconstruction="none", integrator="forwardeuler", endTime=1e-9,
                   dim=dims, script=script, writer=writer)
    c.uq = uq.tree(N, P, [], start)
    return c, D, n


def from_logs(logs, D):
    """[(part position, parameters)] of all logs"""
    out = []
    for (w, i), l in sorted(logs.items()):
        v = l.steps[0].vars["u"]
        out.append((tuple(round(x, 9) for x in v.a), tuple(float(x) for x in v.interior()[0, 0, :D])))
    return out


def split_params(P, v):
    r, o = {}, 0
    for nm, l, t, k in P: r[nm] = v[o:o + l]; o += l
    return r


def from_nc(path, D):
    V, attrs, dims = nc.read(path)
    out = {}
    for k, a in V.items():
        if k.startswith("sample_") and k.endswith("_u"): out[int(k[7:-2])] = tuple(float(x) for x in a[0, 0, :D])
    return out


def body(ck):
    b = build.ensure(("alsuqcli", "alsrec", "alsdist"))
    rec, lib = os.path.join(b, "verif/libalsrec.so"), os.path.join(b, "verif/libalsdist.so")
    rng = random.Random("C17-%d" % ck.seed)
    jobs = []
    for i in range(60 if ck.thorough else 11):
        N = rng.choice([4, 6, 8, 12, 24])
        start = rng.choice([None, 0, 1, 5, 100])
        P = params(rng, lib, one_d=start in (None, 0) and rng.random() < .6, dll=rng.random() < .6)
        style = rng.choice(["array", "cell"])
        lay = [(1, (1, 1, 1))] + rng.sample([(m, s) for m in (1, 2, 3, 4, 6, 8) if N % m == 0 for s in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1)) if 1 < m * s[0] * s[1] <= 8], 3)
        jobs.append(("layout-%d" % i, P, N, start, style, lay))
    if ck.only: jobs = [j for j in jobs if ck.only in j[0]]

    def go(key, P, N, start, style, m, split, writer, threads=1):
        d = os.path.join(ck.scratch, key)
        c, D, n = config(P, N, start, b, writer, split, style)
        res, logs = uq.execute(b, c, d, m, split, threads=threads, timeout=90)
        return res, logs, d, D

    def layout(j):
        key, P, N, start, style, lay = j
        D = sum(p[1] for p in P); s0 = start or 0; ids = list(range(s0, s0 + N)); runs = []
        info = {"params": P, "samples": N, "start": start, "style": style, "layouts": lay}
        bad = []
        netcdf = {"type": "netcdf", "basename": "out", "numberOfSaves": 1, "writeInitialTimestep": True}
        m, s = lay[-1]
        ref = None
        # files of each sample: one process, and a split one
        for t, (mm, ss) in enumerate([(1, (1, 1, 1)), (m, s)]):
            res, _, d, _ = go("%s-nc%d" % (key, t), P, N, start, style, mm, ss, netcdf)
            if res.rc or res.timed_out: bad.append((key + ":run", "layout %d x %s: %s" % (mm, ss, res.tail(300)))); return info, bad, 0, D
            got = from_nc(os.path.join(d, "out_0.nc"), D)
            if sorted(got) != ids: bad.append((key + ":samples", "the output holds samples %s instead of %s under layout %d x %s" % (sorted(got), ids, mm, ss)))
            if ref is None: ref = got
            elif got != ref:
                k = [i for i in got if got[i] != ref.get(i)]
                if k: bad.append((key + ":layout", "sample %d has parameters %s under layout %d x %s but %s on one process" % (k[0], got[k[0]], mm, ss, ref.get(k[0]))))
            shutil.rmtree(d, ignore_errors=True)
        seen = 0
        for t, (mm, ss) in enumerate(lay + [lay[0]]):           # the first one twice: repetition
            res, logs, d, _ = go("%s-r%d" % (key, t), P, N, start, style, mm, ss, cfg.recorder(rec), threads=1 + t % 2)
            if res.rc or res.timed_out: bad.append((key + ":run", "layout %d x %s: %s" % (mm, ss, res.tail(300)))); continue
            got = collections.Counter(from_logs(logs, D)); seen += len(logs)
            parts = sorted({p for p, v in got})
            want = collections.Counter((p, ref[i]) for p in parts for i in ids if i in ref)
            if len(parts) != ss[0] * ss[1] * ss[2] or got != want:
                extra, miss = list((got - want).items())[:2], list((want - got).items())[:2]
                bad.append((key + ":once", "layout %d x %s: %d simulations of %d parts; not expected %s, missing %s" % (mm, ss, sum(got.values()), len(parts), extra, miss)))
            shutil.rmtree(d, ignore_errors=True)
        # other ranges of samples give the same parameters for the same sample
        if not any(p[2] in ("uniform1d", "dll") for p in P):
            k = rng2.randrange(0, N - 1); cnt = rng2.randrange(1, N - k)
            res, _, d, _ = go(key + "-sub", P, cnt, s0 + k, style, 1, (1, 1, 1), netcdf)
            if res.rc or res.timed_out: bad.append((key + ":run", "samples %d.. : %s" % (s0 + k, res.tail(300))))
            else:
                got = from_nc(os.path.join(d, "out_0.nc"), D)
                for i in range(s0 + k, s0 + k + cnt):
                    if got.get(i) != ref.get(i): bad.append((key + ":range", "sample %d has parameters %s in a run of samples %d..%d but %s in one of %d..%d" % (i, got.get(i), s0 + k, s0 + k + cnt - 1, ref.get(i), s0, s0 + N - 1))); break
                seen += cnt
            shutil.rmtree(d, ignore_errors=True)
        # values against the configured distribution
        allv = []
        for i in ids:
            if i not in ref: continue
            v = split_params(P, ref[i])
            for nm, l, t, q in P:
                if t == "uniform":
                    lo, hi = q.get("lower", 0.), q.get("upper", 1.)
                    if min(v[nm]) < lo or max(v[nm]) > hi: bad.append((key + ":bounds", "parameter %s of sample %d is %s, outside [%s, %s]" % (nm, i, v[nm], lo, hi)))
                    allv += [(x - lo) / (hi - lo) for x in v[nm]]
                elif t == "uniform1d":
                    w = q["a"] + (q["b"] - q["a"]) / N * (i + .5)
                    if abs(v[nm][0] - w) > 1e-12: bad.append((key + ":uniform1d", "parameter %s of sample %d is %s instead of %s" % (nm, i, v[nm][0], w)))
                else:
                    w = [q["scale"] * (((c * 31 + i * 17 + N * 7 + l * 3) % 1009) / 1009.) for c in range(l)]
                    if max(abs(a - e) for a, e in zip(v[nm], w)) > 1e-12: bad.append((key + ":plugin", "parameter %s of sample %d is %s, the plug-in gives %s" % (nm, i, v[nm], w)))
        z = np.sort(allv)
        if z.size > 1 and np.min(np.diff(z)) < 1e-12: bad.append((key + ":distinct", "two parameter values of the run coincide"))
        return info, bad, seen + 2 * N, D
    rng2 = random.Random("C17sub-%d" % ck.seed)
    for j, (info, bad, seen, D) in zip(jobs, run.pool(layout, jobs, 3)):
        for k, msg in bad: ck.violation(k, msg, info)
        ck.saw((len(info["params"]), D, info["samples"], info["start"], tuple(map(str, info["layouts"]))), seen); ck.count("simulations_seen", seen)
        ck.sample(info)

    # distribution: many samples; uniform marginals, no dependence between components or on the sample number
    big = [("big-%d" % i, rng.choice([400, 600]), rng.choice([1, 4])) for i in range(8 if ck.thorough else 2)]
    if ck.only: big = [x for x in big if ck.only in x[0]]
    for key, N, m in big:
        P = [(nm, rng.randrange(1, 4), "uniform", {"lower": -1., "upper": 3.}) for nm in rng.sample(NAMES, 3)]
        res, logs, d, D = go(key, P, N, rng.choice([None, 7]), "array", m, (1, 1, 1), cfg.recorder(rec))
        if res.rc or res.timed_out: ck.violation(key + ":run", res.tail(300), {"params": P, "samples": N}); continue
        X = (np.array([v for p, v in from_logs(logs, D)]) + 1) / 4
        ck.saw((key, N, D, m), X.size); ck.count("draws", X.size)
        if X.shape[0] != N: ck.violation(key + ":once", "%d simulations instead of %d" % (X.shape[0], N)); continue
        n = X.shape[0]; C = np.corrcoef(X.T) - np.eye(D) if D > 1 else np.zeros((1, 1))
        for c in range(D):
            s = np.sort(X[:, c]); ks = max(np.max(np.arange(1, n + 1) / n - s), np.max(s - np.arange(n) / n))
            if ks > 2.3 / np.sqrt(n): ck.violation(key + ":marginal", "component %d: the distance of the empirical from the uniform distribution is %.3g for %d samples" % (c, ks, n), {"params": P})
            for lag in (1, 2, 3):
                r = np.corrcoef(X[:-lag, c], X[lag:, c])[0, 1]
                if abs(r) > 5 / np.sqrt(n): ck.violation(key + ":serial", "component %d: correlation %.3g between samples at distance %d" % (c, r, lag), {"params": P})
        if np.max(np.abs(C)) > 5 / np.sqrt(n): ck.violation(key + ":dependence", "correlation %.3g between two parameter components" % np.max(np.abs(C)), {"params": P})
        if np.min(np.diff(np.sort(X.ravel()))) == 0: ck.violation(key + ":distinct", "equal parameter values in different places", {"params": P})
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    report.main(report.Check("C17", rule="number of (parameters, components, samples, start, layouts) configurations; evaluations are sample simulations and draws compared"), body)
