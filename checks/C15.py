"""Initial data: the state every process holds before the first step, recorded by a plug-in,
against the user's formulas evaluated here at the midpoint of each cell of the global grid
and converted to conserved variables in extended precision."""
import math, os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, ref, report, run, uq, cfg

SPLITS = {1: [(2, 1, 1), (3, 1, 1), (4, 1, 1)], 2: [(2, 1, 1), (1, 2, 1), (2, 2, 1), (1, 3, 1), (3, 2, 1)], 3: [(2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 2), (2, 2, 2)]}


def term(rng, c, pars):
    """A formula of size about 1 in x, y, z."""
    d = rng.randrange(c.nd); v = "xyz"[d]
    lo, up = c.lower[d], c.upper[d]; L = (up - lo) or 1.; h = L / c.dims[d]
    par = lambda: rng.choice([p for p in pars] or ["0.7"])
    k = rng.choice(["sin", "sin", "box", "poly", "tanh", "gauss", "par", "two", "cell"])
    if k == "sin": return "sin(2 * pi * %d * (%s - %r) / %r + %s)" % (rng.randrange(1, 3), v, lo, L, par())
    if k == "box": return "(1. if %r < %s < %r else -.5)" % (lo + h * (rng.randrange(c.dims[d]) + rng.choice([.05, .95])), v, up + 1)
    if k == "poly": return "((%s - %r) / %r) ** %d * %s" % (v, lo, L, rng.randrange(1, 4), par())
    if k == "tanh": return "tanh((%s - %r) / %r)" % (v, lo + L / 2, L / 4)
    # (the coordinates in the directions without extent are a matter of convention)
    if k == "gauss" and c.nd > 1: return "exp(-((x - %r) / %r) ** 2 - ((y - %r) / %r) ** 2)" % (c.lower[0], c.upper[0] - c.lower[0], c.lower[1], (c.upper[1] - c.lower[1]) or 1.)
    if k == "two": return "sqrt(1. + ((x - %r) / %r) ** 2) * cos(%s)" % (c.lower[0], c.upper[0] - c.lower[0], par())
    if k == "cell": return "(.3 if floor((%s - %r) / %r) %% 3 == 1 else 0.)" % (v, lo, h)
    return par()


def scripts(rng, c, style, names, pars):
    """(text of the script, function of (x, y, z, i, j, k) -> values)"""
    b = lambda n: " + ".join("%r * %s" % (round(rng.uniform(-.12, .12), 3), term(rng, c, pars)) for _ in range(n))
    body = {}
    for n in names:
        e = b(rng.randrange(1, 4))
        body[n] = "%s + %s" % (2.0 if n in ("rho", "p") else .4, e)
    if rng.random() < .3 and "uy" in names: body.pop("uy")            # unset variables are zero
    helper = rng.random() < .5
    lines = []
    if style == "cell":
        if rng.random() < .3: lines += ["import numpy as npy", "from math import sqrt as wurzel"]
        if helper:
            lines += ["def f(a, b):", "    c = a * a", "    return c + b", ""]
            n = next(iter(body)); body[n] += " + f(.1, .05)"
        idx = rng.random() < .4 and c.procs == 1
        if idx: n = next(iter(body)); body[n] += " + .01 * (i + 2 * j + 3 * k) / %d" % sum(c.dims)
        branch = rng.random() < .4
        for n, e in body.items():
            if branch and rng.random() < .6:
                m = (c.lower[0] + c.upper[0]) / 2 + .03 * c.h[0]
                lines += ["if x < %r:" % m, "    %s = %s" % (n, e), "else:", "    %s = %s + .01" % (n, e)]
            else: lines.append("%s = %s" % (n, e))
        text = "\n".join(lines) + ("\n" if rng.random() < .8 else "")
        code = compile(text, "init", "exec")
        def ev(P, x, y, z, i, j, k):
            g = dict(vars(math), **P); g.update(x=x, y=y, z=z, i=i, j=j, k=k); g.update({n: 0. for n in names})
            exec(code, g); return [g[n] for n in names]
        return text, ev
    order = names
    conv = {n: e.replace(" if ", " IF ") for n, e in body.items()}
    lines = ["import math"]
    if rng.random() < .5: lines += ["GLOBAL = 3", ""]
    # whole array: one loop over the cells of the part, the midpoints computed as a user would
    lines += ["def init_global(%s, nx, ny, nz, ax, ay, az, bx, by, bz):" % ", ".join("A_" + n for n in names), "    dx, dy, dz = (bx - ax) / nx, (by - ay) / ny, (bz - az) / nz"]
    vec = rng.random() < .4 and not any(" if " in e or "floor" in e for e in body.values())
    if vec:
        lines += ["    import numpy", "    x, y, z = numpy.meshgrid(ax + (numpy.arange(nx) + .5) * dx, ay + (numpy.arange(ny) + .5) * dy, az + (numpy.arange(nz) + .5) * dz, indexing='ij')", "    from numpy import sin, cos, tanh, exp, sqrt, pi"]
        for n, e in body.items(): lines.append("    A_%s[:, :, :] = %s" % (n, e))
    else:
        lines += ["    for i in range(nx):", "        for j in range(ny):", "            for k in range(nz):", "                x, y, z = ax + (i + .5) * dx, ay + (j + .5) * dy, az + (k + .5) * dz"]
        for n, e in body.items(): lines.append("                A_%s[i, j, k] = %s" % (n, e))
    text = "\n".join(lines) + "\n"
    codes = {n: compile(e, "e", "eval") for n, e in body.items()}
    def ev(P, x, y, z, i, j, k):
        g = dict(vars(math), **P); g.update(x=x, y=y, z=z)
        return [float(eval(codes[n], g)) if n in codes else 0. for n in names]
    return text, ev


def body(ck):
    b = build.ensure(("alsvinncli", "alsuqcli", "alsrec"))
    rng = random.Random("C15-%d" % ck.seed)
    jobs = []
    for i in range(1200 if ck.thorough else 150):
        eq = rng.choice(["burgers", "linear", "cubic", "buckleyleverett", "euler1", "euler2", "euler3", "euler2", "euler3"])
        nd = int(eq[-1]) if eq.startswith("euler") else rng.choice([1, 2, 3])
        c = cases.Case("init-%d" % i, eq=eq, flux="central" if eq == "linear" else "rusanov" if not eq.startswith("euler") else "hll3" if eq != "euler1" else "hll", boundary=rng.choice(["periodic", "neumann"]), seed=ck.seed)
        c.flux = {"linear": "upwind", "buckleyleverett": "godunov"}.get(eq, c.flux)
        c.recon = rng.choice(["none", "none", "eno2", "weno2", "eno3"]) if not eq.startswith("euler") else rng.choice(["none", "weno2", "eno2", "mc"])
        if eq in ("buckleyleverett",): c.recon = "none"
        c.split = rng.choice(SPLITS[nd]) if i % 3 == 0 else (1, 1, 1); c.procs = int(np.prod(c.split))
        c.dims = tuple(rng.randrange(5, {1: 60, 2: 20, 3: 9}[nd]) * c.split[q] if q < nd else 1 for q in range(3))
        s = rng.choice([1., 1., 2., 1e-6, 1e4, rng.uniform(.1, 10)])
        lo = [s * rng.choice([0., -1., .5, rng.uniform(-3, 3), 100.]) for q in range(3)]; up = [l + s * rng.choice([1., .3, 2.5, rng.uniform(.1, 4)]) for l in lo]
        for q in range(nd, 3):
            # what a user writes for the directions without extent
            lo[q], up[q] = rng.choice([(0., 0.), (0., 1.), (lo[q], up[q])])
        c.lower, c.upper = tuple(lo), tuple(up)
        if eq.startswith("euler") and rng.random() < .6: c.gamma = rng.choice([1.4, 5 / 3, 1.2, 2.])
        c.end = 1e-12 * min(c.h[:nd])
        P, cf = {}, []
        for n in rng.sample(["K", "a", "alpha", "X1", "my_par", "e", "beta", "degrees"], rng.randrange(0, 4)):
            l = rng.choice([1, 1, 2, 3, 7])
            v = [round(rng.uniform(-2, 2), rng.choice([1, 3, 15])) for _ in range(l)]
            kind = "list"
            if l > 1 and rng.random() < .25: v = [v[0]] * l; kind = "repeat"
            P[n] = v[0] if l == 1 else v
            cf.append((n, l, v, kind))
        pars = [n if l == 1 else "%s[%d]" % (n, rng.randrange(l)) for n, l, v, k in cf] + (["gamma"] if c.gamma else [])
        c.style = rng.choice(["cell", "cell", "array"])
        names = ref.equation(eq, c.gamma, nd).prim
        c.text, c.ev = scripts(rng, c, c.style, names, pars)
        c.par, c.P0 = cf, dict(P, **({"gamma": c.gamma} if c.gamma else {}))
        c.uq = i % 10 == 7
        jobs.append(c)
    if ck.only: jobs = [c for c in jobs if ck.only in c.key]

    def one(c):
        d = os.path.join(ck.scratch, c.key)
        k = dict(script=c.text)
        if c.par:
            k["extra"] = {}
        conf = cfg.Config(name="run", boundary=c.boundary, flux=c.flux, equation=c.eq, reconstruction=c.recon, cfl=.4, integrator="forwardeuler", gamma=c.gamma, endTime=c.end,
                          lower=c.lower, upper=c.upper, dim=c.dims, script=c.text, writer=cfg.recorder(os.path.join(b, "verif/libalsrec.so")))
        if c.par:
            conf.parameters = [(n, v[0] if l == 1 else v) for n, l, v, kind in c.par]
        cmd = [os.path.join(b, "alsuqcli/alsuqcli" if c.uq else "alsvinncli/alsvinncli"), "config.xml"]
        if c.uq: conf.uq = uq.tree(1, [], []); conf.uq["parameters"] = ""; cmd += ["--multi-sample", "1"]
        conf.write(d)
        # a list may also be given by one value for all entries
        x = open(os.path.join(d, "config.xml")).read()
        for n, l, v, kind in c.par:
            if kind == "repeat":
                a = x.index("<name>%s</name>" % n); e = x.index("</values>", a); s = x.index("<values>", a)
                x = x[:s] + "<values><value>%r</value>" % v[0] + x[e:]
        open(os.path.join(d, "config.xml"), "w").write(x)
        if c.procs > 1 or c.uq:
            for f, s in zip(("--multi-x", "--multi-y", "--multi-z"), c.split): cmd += [f, str(s)]
        res = run.execute(run.mpi(cmd, c.procs), d, timeout=60)
        return c, res, cases.Run(c, res, run.logs(d)), d
    for a in range(0, len(jobs), 32):
        for c, res, R, d in run.pool(one, jobs[a:a + 32]):
            info = dict(c.describe(), script=c.text, parameters=c.par, style=c.style)
            ck.count("runs"); ck.count("mpi_runs", int(c.procs > 1))
            if res.rc or res.timed_out or not R.logs or R.nsteps() < 1:
                ck.violation(c.key + ":run", "exit %s: %s" % (res.rc, res.tail(3000)), info)
            else:
                U, cover = R.glob(0)
                if not (cover == 1).all(): ck.violation(c.key + ":cover", "a cell of the global grid is held by %d processes" % cover.max() if cover.max() > 1 else "a cell of the global grid is held by no process", info); continue
                eq = R.eq; n = c.dims
                W = np.empty((len(eq.prim),) + n[::-1], np.longdouble)
                for z in range(n[2]):
                    for y in range(n[1]):
                        for x in range(n[0]):
                            W[:, z, y, x] = c.ev(c.P0, c.lower[0] + (x + .5) * c.h[0], c.lower[1] + (y + .5) * c.h[1], c.lower[2] + (z + .5) * c.h[2], x, y, z)
                if c.eq.startswith("euler"):
                    g = np.longdouble(c.gamma or 1.4); m = W[0] * W[1:-1]
                    V = np.concatenate([W[:1], m, [W[-1] / (g - 1) + (m * W[1:-1]).sum(0) / 2]])
                else: V = W
                far = max(abs(c.lower[q]) / (c.h[q] * n[q]) for q in range(3) if c.upper[q] > c.lower[q])
                e = np.abs(V - U); tol = 1e-13 * (30 + 20 * far) * 3
                ck.saw((c.eq, c.nd, c.style, c.boundary, c.recon, c.split, bool(c.par)), U.size); ck.count("cells", U[0].size); ck.count("one_cell_directions", 3 - c.nd)
                if not (e <= tol).all():
                    x = np.unravel_index(np.argmax(np.where(e == e, e, np.inf)), e.shape)
                    ck.violation(c.key + ":value", "%s of cell %s is %.15g; the initial data at its midpoint give %.15g (%d of %d values wrong)" % (eq.names[x[0]], x[:0:-1], U[x], float(V[x]), int((~(e <= tol)).sum()), e.size), info)
                ck.sample(info)
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    report.main(report.Check("C15", rule="number of (equation, dimensions, script style, boundary, reconstruction, process layout, parameters) classes; evaluations are cell values compared"), body)
