"""Symmetries: pairs of runs related by a symmetry of the grid, whole histories compared."""
import os, sys, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, conform, ref, report, run, zoo


def vec(eq): return eq.startswith("euler")


def tolerance(c):
    t = 1e-11
    if c.flux.startswith("tecno"): t = 1e-7
    return t


class Pair:
    """case a, case b, and the map taking a's global state to b's."""
    def __init__(self, kind, a, b, fwd, times=True): self.kind, self.a, self.b, self.fwd, self.times = kind, a, b, fwd, times


def base(ck, key, rng, **k):
    c = zoo.draw(ck, key, rng, steps=5, **k)
    if c.kind in ("smooth", "shock", "spike") and not (c.recon == "none" and not c.diff): c.kind = "noise"   # no exact ties between stencils
    if c.flux == "central": c.cfl = .02
    if c.kind == "noise" and vec(c.eq): c.cfl = .04
    c.seed = ck.seed
    return c


def perm_vars(P, order):
    """Reorders space axes: new axis d is old axis order[d] (d in x,y,z)."""
    nd = len(order)
    full = list(order) + list(range(nd, 3))
    Q = P.transpose([0] + [3 - full[d] for d in (2, 1, 0)])
    if P.shape[0] > 1: Q = np.concatenate([Q[:1]] + [Q[1 + order[d]][None] for d in range(nd)] + [Q[-1:]])
    return np.ascontiguousarray(Q)


def flip(P, d, euler):
    Q = np.flip(P, axis=3 - d).copy()
    if euler: Q[1 + d] *= -1
    else: Q = -Q
    return Q


def pairs(ck, rng):
    out = []
    R = 12 if ck.thorough else 1
    for r in range(R):
        for i in range(26):           # shifts
            c = base(ck, "shift-%d-%d" % (i, r), rng)
            s = [rng.randrange(n) for n in c.dims]
            f = lambda P, s=s: np.roll(P, s[::-1], axis=(1, 2, 3))
            out.append(Pair("shift", c, c.copy(), f))
        for i in range(20):           # mirrored axes; the other scalar equations have a preferred direction
            eq = rng.choice(["burgers", "euler1", "euler2", "euler2", "euler3"])
            fl = rng.choice([f for f in zoo.SCHEMES[eq] if eq != "burgers" or not f.startswith("tecno")])
            c = base(ck, "mirror-%d-%d" % (i, r), rng, eq=eq, flux=fl, boundary=rng.choice(["periodic", "neumann"]))
            d = rng.randrange(c.nd)
            if not vec(c.eq):          # u -> -u reverses all directions at once
                f = lambda P, nd=c.nd: -np.flip(P, axis=tuple(3 - e for e in range(nd)))
            else: f = lambda P, d=d: flip(P, d, True)
            out.append(Pair("mirror", c, c.copy(), f))
        for i in range(22):           # exchanged axes
            eq = rng.choice(["burgers", "linear", "cubic", "buckleyleverett", "euler2", "euler2", "euler3", "euler3"])
            nd = int(eq[5]) if vec(eq) else rng.choice([2, 3])
            c = base(ck, "axes-%d-%d" % (i, r), rng, eq=eq, boundary=rng.choice(["periodic", "neumann"]), **({} if vec(eq) else {"nd": nd}))
            o = rng.choice([[1, 0]] if nd == 2 else [[1, 0, 2], [0, 2, 1], [2, 1, 0], [1, 2, 0], [2, 0, 1]])
            full = o + list(range(nd, 3))
            b = c.copy(); b.dims = tuple(c.dims[k] for k in full); b.lower = tuple(c.lower[k] for k in full); b.upper = tuple(c.upper[k] for k in full)
            out.append(Pair("axes", c, b, lambda P, o=o: perm_vars(P, o)))
        for i in range(22):           # one-dimensional data in more dimensions
            eq = rng.choice(["burgers", "linear", "cubic", "buckleyleverett", "euler", "euler", "euler"])
            e1 = "euler1" if eq == "euler" else eq
            nd = rng.choice([2, 3])
            fl = rng.choice([f for f in zoo.SCHEMES[e1] if f in zoo.SCHEMES.get("euler3", []) or eq != "euler"])
            c = base(ck, "lift-%d-%d" % (i, r), rng, eq=e1, flux=fl, boundary=rng.choice(["periodic", "neumann"]), **({} if eq == "euler" else {"nd": 1}))
            c.dims = (rng.choice([16, 18, 21]), 1, 1)
            ax = rng.randrange(nd)
            b = c.copy()
            b.eq = "euler%d" % nd if eq == "euler" else eq
            b.dims = tuple(c.dims[0] if d == ax else (15 + d if d < nd else 1) for d in range(3))
            # transverse cells so wide that they do not shorten the time step
            b.lower = tuple(c.lower[0] if d == ax else 0. for d in range(3))
            b.upper = tuple(c.upper[0] if d == ax else (1e14 if d < nd else 1.) for d in range(3))

            def f(P, b=b, ax=ax, nd=nd, euler=(eq == "euler")):
                n = b.dims[::-1]
                sh = [1, 1, 1]; sh[2 - ax] = P.shape[-1]
                g = lambda q: np.broadcast_to(q.reshape(sh), n)
                Q = [g(P[0])]
                if euler: Q += [g(P[1]) if d == ax else np.zeros(n) for d in range(nd)] + [g(P[-1])]
                return np.stack(Q)
            out.append(Pair("lift", c, b, f))
        for i in range(8):            # the position of the domain does not matter
            c = base(ck, "origin-%d-%d" % (i, r), rng, boundary=rng.choice(["periodic", "neumann"]))
            b = c.copy(); off = [rng.choice([.5, -2., 3.25, 16.]) if d < c.nd else 0. for d in range(3)]
            b.lower = tuple(l + o for l, o in zip(c.lower, off)); b.upper = tuple(l + o for l, o in zip(c.upper, off))
            out.append(Pair("origin", c, b, lambda P: P))
    for r in range(R):
        for eq in zoo.SCHEMES:        # uniform states
            for f in zoo.SCHEMES[eq]:
                c = base(ck, "uniform-%s-%s-%d" % (eq, f, r), rng, eq=eq, flux=f, boundary=rng.choice(["periodic", "neumann"]))
                c.kind = "uniform"; c.cfl = .3
                if rng.random() < .3: c.procs, c.split = 2, (2, 1, 1); c.dims = (32,) + c.dims[1:]
                out.append(Pair("uniform", c, None, None))
    return out


def examine(ck, p, A, B):
    c = p.a
    tol = tolerance(c)
    if p.kind == "uniform":
        if not A.logs or A.res.rc or A.nsteps() < 2: ck.violation(c.key + ":run", "run failed (exit %s): %s" % (A.res.rc, A.res.tail(300)), c.describe()); return
        U0 = A.glob(0)[0]
        for k in range(A.nsteps()):
            U = A.glob(k)[0]
            d = np.abs(U - U0).max() / np.abs(U0).max()
            ck.saw(c.key, U.size); ck.count("uniform_states")
            if not d <= (1e-12 if not c.diff or c.diff[0] == "none" else 1e-10):
                ck.violation(c.key, "step %d: a uniform state changes by %.3g (relative)" % (k, d), c.describe()); return
        return
    n = min(A.nsteps(), B.nsteps()) if A.logs and B.logs else 0
    if n < 1 or A.res.timed_out or B.res.timed_out or abs(A.nsteps() - B.nsteps()) > 1:
        ck.violation(c.key + ":run", "runs recorded %d and %d steps (exit %s, %s)" % (A.nsteps(), B.nsteps(), A.res.rc, B.res.rc), c.describe()); return
    for k in range(n):
        U, V = p.fwd(A.glob(k)[0]), B.glob(k)[0]
        if not (np.isfinite(U).all() and np.isfinite(V).all()): break
        m = np.abs(V).max()
        d = np.abs(U - V)
        i = np.unravel_index(np.argmax(d), d.shape)
        ck.saw(c.key, U.size); ck.count("states_" + p.kind)
        if not d[i] <= tol * m * (k + 1) ** 2:
            ck.violation(c.key, "%s: step %d, %s in cell (z,y,x)=%s: %.17g against %.17g" % (p.kind, k, B.eq.names[i[0]], tuple(map(int, i[1:])), U[i], V[i]),
                         {"a": c.describe(), "b": p.b.describe()}); return
        ta, tb = A.log.steps[k].time, B.log.steps[k].time
        if not abs(ta - tb) <= 1e-9 * abs(ta):
            ck.violation(c.key + ":time", "%s: step %d at time %.17g against %.17g" % (p.kind, k, ta, tb), {"a": c.describe(), "b": p.b.describe()}); return
    ck.sample({"kind": p.kind, "a": c.describe(), "states": n})


def body(ck):
    b = build.ensure(("alsvinncli", "alsrec"))
    rng = random.Random("C02-%d" % ck.seed)
    ps = pairs(ck, rng)
    if ck.only: ps = [p for p in ps if ck.only in p.a.key]

    def one(ip):
        i, p = ip
        d = os.path.join(ck.scratch, "r%d" % i)
        p.a.P = cases.initial(p.a)
        if p.b: p.b.P = p.fwd(p.a.P)
        A = cases.execute(b, p.a, d)
        if p.b: p.b.end = p.a.end
        B = cases.execute(b, p.b, d + "b", extra_env={"ALSREC_MAX": max(40, 10 * p.a.steps)}) if p.b else None
        for q in (d, d + "b"): shutil.rmtree(q, ignore_errors=True)
        return p, A, B
    for a in range(0, len(ps), 48):
        for p, A, B in run.pool(one, list(enumerate(ps))[a:a + 48]):
            ck.count("pairs_" + p.kind)
            examine(ck, p, A, B)


if __name__ == "__main__":
    report.main(report.Check("C02", rule="global state of one recorded step compared with the symmetric image of the same step of the related run"), body)
