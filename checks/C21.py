"""Convergence: final states of production runs on several grids against exact solutions
(smooth waves followed by characteristics, oblique waves, a vortex, Riemann problems) and,
for the integrators, against runs with a much smaller time step."""
import os, sys, random, shutil, math
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, cases, cfg, exact, ref, report, run

TAU = 2 * np.pi
# lowest average rate that still is the nominal one (measured rates of nonlinear and limited schemes lie
# somewhat below the nominal order on affordable grids)
SPACE = {"none": .8, "mc": 1.7, "mm": 1.55, "eno2": 1.55, "eno3": 2.25, "eno4": 2.8, "weno2": 1.7, "wenof2": 1.7, "weno3": 3.5}
TIME = {"forwardeuler": .8, "rungekutta2": 1.7, "rungekutta3": 2.7, "rungekutta4": 3.7}
ORDER = {"forwardeuler": 1, "rungekutta2": 2, "rungekutta3": 3, "rungekutta4": 4}
WIDE = {"central": 1.8, "tecno1": 1.8, "tecno4": 3.6, "tecno6": 5.}
SCALAR = {"linear": ["upwind", "rusanov", "roe"], "burgers": ["godunov", "rusanov", "roe"], "cubic": ["rusanov", "roe"], "buckleyleverett": ["godunov", "rusanov"]}


class Problem:
    """A family of cases (one per resolution) with its exact solution."""
    def __init__(self, key, make, exact, t, Ns, rate, points=False, what=""):
        self.key, self.make, self.exact, self.t, self.Ns, self.rate, self.points, self.what = key, make, exact, float("%.6g" % t), Ns, rate, points, what


def values(c, fun, t, points):
    if not points: return exact.averages(lambda X, Y, Z: fun(X, Y, Z, t), c.lower, c.h, c.dims, c.nd)
    ax = [c.lower[d] + (np.arange(c.dims[d]) + .5) * c.h[d] for d in range(3)]
    Z, Y, X = np.meshgrid(*ax[::-1], indexing="ij")
    return fun(X, Y, Z, t)


def solve(ck, b, c, U, end, d):
    eq = ref.equation(c.eq, c.gamma, c.nd)
    c.P, c.end = eq.to_prim(U), end
    R = cases.execute(b, c, d, writer=cfg.recorder(os.path.join(b, "verif/libalsrec.so"), saves=1), timeout=300)
    shutil.rmtree(d, ignore_errors=True)
    ck.count("runs")
    if R.res.rc or R.res.timed_out or not R.logs or not R.nsteps(): return None, R
    ck.count("cells", int(np.prod(c.dims)))
    return R.glob(-1)[0], R


def modes(rng, mid, amp, pure=False):
    a, ph, q = amp * rng.uniform(.7, 1), rng.uniform(0, TAU), 0. if pure else rng.choice([0., .15, .25])
    p2 = rng.uniform(0, TAU)
    return lambda x: mid + a * ((1 - q) * np.sin(TAU * x + ph) + q * np.sin(2 * TAU * x + p2))


def box(rng, nd):
    """Lower and upper bounds with different edge lengths."""
    lo = [rng.choice([0., -1.5, .25]) if d < nd else 0. for d in range(3)]
    return tuple(lo), tuple(l + (rng.choice([1., 2., .5]) if d < nd else 1.) for d, l in enumerate(lo))


def thickness(rng, rec, flux, diff):
    """Cells across a one-dimensional problem: at least as many as the scheme has ghost cells."""
    g = ref.Scheme("burgers", flux, rec, "forwardeuler", diff, "periodic", .2, (1., 1., 1.), (8, 8, 8), None).ghosts()
    return [max(2, g + rng.choice([0, 0, 1])) for _ in range(3)]


def axis_case(rng, nd, axis, thin, lo, up, **k):
    def make(N):
        dims = [1, 1, 1]
        for d in range(nd): dims[d] = N if d == axis else thin[d]
        return cases.Case("c", dims=tuple(dims), lower=lo, upper=up, **k)
    return make


def smooth_scalar(rng, key, eqn, flux, rec, it, nd, axis, Ns):
    lo, up = box(rng, nd); thin = thickness(rng, rec, flux, diff=None)
    L = up[axis] - lo[axis]
    mid, amp = {"linear": (.5, 1.), "burgers": (.6, .4) if flux != "rusanov" else (.15, .6), "cubic": (.7, .3), "buckleyleverett": (.25, .15)}[eqn]
    if eqn == "burgers" and flux.startswith("tecno"): mid, amp = 1., .4
    u0 = modes(rng, mid, amp, rec.startswith("eno")); eq = ref.equation(eqn)
    t = min(.25, rng.uniform(.35, .5) * exact.breaking(u0, eq.df)) * L
    fun = lambda X, Y, Z, s: exact.characteristic(u0, eq.df, ((X, Y, Z)[axis] - lo[axis]) / L, s / L)[None]
    wide = flux in WIDE
    r = min(WIDE[flux] if wide else SPACE[rec], TIME[it])
    return Problem(key, axis_case(rng, nd, axis, thin, lo, up, eq=eqn, flux=flux, recon=rec, integ=it, cfl=.2 if not wide else .1), fun, t, Ns, r, wide)


def simple_wave(rng, key, flux, rec, it, nd, axis, Ns, gamma, diff=None):
    """An isentropic wave in one direction with constant velocities across it."""
    lo, up = box(rng, nd); thin = thickness(rng, rec, flux, diff)
    L = up[axis] - lo[axis]; g = gamma or 1.4
    eq = ref.equation("euler%d" % nd, gamma, nd)
    sgn = rng.choice([1, -1]); r0 = modes(rng, 1, .12, "eno" in rec + str(diff)); ub = rng.uniform(-.8, .8); v = [rng.uniform(-.5, .5) for _ in range(3)]
    c = lambda r: np.sqrt(g) * r ** ((g - 1) / 2)
    u0 = lambda x: ub + sgn * 2 / (g - 1) * (c(r0(x)) - c(1.))
    sp = lambda x: u0(x) + sgn * c(r0(x))
    t = min(.2, rng.uniform(.3, .45) * exact.breaking(lambda x: x, sp)) * L

    def fun(X, Y, Z, s):
        x = ((X, Y, Z)[axis] - lo[axis]) / L
        if s: x = exact.characteristic(lambda q: q, sp, x, s / L)
        P = [r0(x)] + [np.full_like(x, v[d]) for d in range(nd)] + [r0(x) ** g]
        P[1 + axis] = u0(x)
        return eq.to_cons(np.stack(P))
    wide = flux in WIDE
    s = WIDE[flux] if wide else SPACE[rec]
    if diff: s = min(s, SPACE[diff[1]])
    return Problem(key, axis_case(rng, nd, axis, thin, lo, up, eq="euler%d" % nd, flux=flux, recon=rec, integ=it, gamma=gamma, diff=diff, cfl=.2 if flux != "central" else .1),
                   fun, t, Ns, min(s, TIME[it]), wide)


def oblique(rng, key, eqn, flux, rec, it, nd, Ns, gamma=None, diff=None):
    """Transport of a profile across the grid (density wave for Euler, Burgers along the diagonal)."""
    lo, up = box(rng, nd); up = tuple(up)
    L = [up[d] - lo[d] for d in range(3)]
    eq = ref.equation(eqn, gamma, nd)
    m = [rng.choice([1, -1]) for _ in range(nd)]
    if eqn == "linear":
        u0 = modes(rng, .5, 1., rec.startswith("eno"))
        fun = lambda X, Y, Z, s: u0(sum(k * (a - s) / l for k, a, l in zip(m, (X, Y, Z), L)))[None]
        t, rate = .2 * min(L), SPACE[rec]
    elif eqn == "burgers":
        up = tuple(l + (1. if d < nd else 1.) for d, l in enumerate(lo))
        u0 = modes(rng, .6, .3, rec.startswith("eno"))
        t = min(.2, .4 * exact.breaking(u0, lambda u: nd * u)); rate = min(SPACE[rec], 1.6)
        fun = lambda X, Y, Z, s: exact.characteristic(u0, lambda u: nd * u, X + (Y if nd > 1 else 0) + (Z if nd > 2 else 0), s)[None]
    else:
        v, p, r0 = [rng.uniform(-.8, .8) for _ in range(nd)], rng.uniform(.6, 1.5), modes(rng, 1, .3, "eno" in rec + str(diff))
        t = .15 * min(L); rate = WIDE[flux] if flux in WIDE else SPACE[rec]
        if diff: rate = min(rate, SPACE[diff[1]])

        def fun(X, Y, Z, s):
            r = r0(sum(k * (a - w * s) / l for k, a, l, w in zip(m, (X, Y, Z), L, v)))
            return eq.to_cons(np.stack([r] + [np.full_like(r, q) for q in v] + [np.full_like(r, p)]))
    per = [rng.choice([1., 1., 1.5]) for _ in range(nd)]

    def make(N):
        dims = tuple(int(N * per[d]) if d < nd else 1 for d in range(3))
        return cases.Case("c", eq=eqn, flux=flux, recon=rec, integ=it, gamma=gamma, diff=diff, dims=dims, lower=lo, upper=up, cfl=.2)
    return Problem(key, make, fun, t, Ns, min(rate, TIME[it]), flux in WIDE)


def vortex(rng, key, flux, rec, it, Ns, diff=None):
    """The isentropic vortex carried along by a constant wind (periodic box)."""
    eq = ref.equation("euler2", 1.4, 2); g = 1.4
    w = [rng.uniform(-1, 1), rng.uniform(-1, 1)]; beta = rng.uniform(3, 5); S = 12.

    def fun(X, Y, Z, s):
        x, y = [((a - v * s + S / 2) % S) - S / 2 for a, v in zip((X, Y), w)]
        e = np.exp((1 - x * x - y * y) / 2); f = beta / TAU * e
        T = 1 - (g - 1) * beta ** 2 / (8 * g * np.pi ** 2) * e * e
        return eq.to_cons(np.stack([T ** (1 / (g - 1)), w[0] - f * y, w[1] + f * x, T ** (g / (g - 1))]))
    r = WIDE[flux] if flux in WIDE else min(1.7, SPACE[rec])
    if diff: r = min(r, SPACE[diff[1]])
    return Problem(key, lambda N: cases.Case("c", eq="euler2", flux=flux, recon=rec, integ=it, diff=diff, dims=(N, N, 1), lower=(-S / 2, -S / 2, 0.), upper=(S / 2, S / 2, 1.), cfl=.3),
                   fun, 1., Ns, min(r, TIME[it]), flux in WIDE)


def riemann_scalar(rng, key, eqn, flux, nd, axis, Ns, data, rec="none", it="forwardeuler", diff=None):
    lo, up = box(rng, nd); thin = thickness(rng, rec, flux, diff)
    L = up[axis] - lo[axis]; x0 = lo[axis] + L / 2
    eq = ref.equation(eqn); l, r = data
    u = np.linspace(min(l, r), max(l, r), 400)
    t = .35 * L / max(.05, np.abs(eq.df(u)).max())

    def fun(X, Y, Z, s):
        x = (X, Y, Z)[axis] - x0
        if not s: return np.where(x < 0, l, r)[None]
        line = np.moveaxis(x, 2 - axis, 0)[:, 0, 0]
        v = exact.scalar_riemann(eq, l, r, line / s)
        sh = [1, 1, 1]; sh[2 - axis] = -1
        return np.broadcast_to(v.reshape(sh), x.shape)[None]
    return Problem(key, axis_case(rng, nd, axis, thin, lo, up, eq=eqn, flux=flux, recon=rec, integ=it, diff=diff, boundary="neumann", cfl=.2), fun, t, Ns, .33, what="Riemann %s" % (data,))


def riemann_euler(rng, key, flux, nd, axis, Ns, data, gamma=None, rec="none", it="forwardeuler", diff=None):
    lo, up = box(rng, nd); thin = thickness(rng, rec, flux, diff)
    L = up[axis] - lo[axis]; x0 = lo[axis] + L / 2; g = gamma or 1.4
    eq = ref.equation("euler%d" % nd, gamma, nd)
    l, r = data
    vl, vr = [rng.uniform(-.5, .5) for _ in range(3)], [rng.uniform(-.5, .5) for _ in range(3)]
    w = np.linspace(-30, 30, 60001)
    q = exact.euler_riemann(l, r, g, w)[0]
    top = max(np.abs(q[1] - np.sqrt(g * q[2] / q[0])).max(), np.abs(q[1] + np.sqrt(g * q[2] / q[0])).max())
    moved = np.abs(np.diff(q, axis=1)).max(0) > 1e-9
    top = max(np.abs(w[:-1][moved]).max(), .3)
    t = .4 * L / top

    def fun(X, Y, Z, s):
        x = (X, Y, Z)[axis] - x0
        if s: (rho, u, p), left = exact.euler_riemann(l, r, g, x / s)
        else:
            left = x < 0
            rho, u, p = [np.where(left, a, b) for a, b in zip(l, r)]
        P = [rho] + [np.where(left, a, b) for a, b in zip(vl[:nd], vr)] + [p]
        P[1 + axis] = u
        return eq.to_cons(np.stack(P))
    return Problem(key, axis_case(rng, nd, axis, thin, lo, up, eq="euler%d" % nd, flux=flux, recon=rec, integ=it, gamma=gamma, diff=diff, boundary="neumann", cfl=.3), fun, t, Ns, .33, what="Riemann %s %s" % data)


def problems(ck, rng):
    P, T = [], ck.thorough
    N1 = (64, 128, 256)
    ITS = ["rungekutta2", "rungekutta3", "rungekutta4"]
    pos = [(1, 0)] * 5 + [(2, 0), (2, 1)] * 2 + [(3, 0), (3, 1), (3, 2)] * (2 if T else 1)
    for rep in range(6 if T else 1):
        for eqn, fl in SCALAR.items():
            for flux in fl:
                for rec in ("none", "mc", "mm", "eno2", "eno3", "eno4", "weno2", "weno3"):
                    if not T and rng.random() < .4: continue
                    nd, ax = rng.choice(pos)
                    it = "forwardeuler" if rec == "none" and rng.random() < .6 else rng.choice(ITS)
                    P.append(smooth_scalar(rng, "smooth-%s-%s-%s-%s-%d%s-%d" % (eqn, flux, rec, it, nd, "xyz"[ax], rep), eqn, flux, rec, it, nd, ax, N1 if nd < 3 else (48, 96, 144)))
        for flux in ("tecno1", "tecno4", "tecno6", "central"):
            nd, ax = rng.choice(pos)
            P.append(smooth_scalar(rng, "smooth-burgers-%s-%d%s-%d" % (flux, nd, "xyz"[ax], rep), "burgers", flux, "none", "rungekutta4", nd, ax, (64, 128)))
        for flux in ("hll", "hll3"):
            for rec in SPACE:
                nd, ax = rng.choice(pos[:9]) if rng.random() < .7 else rng.choice(pos)
                it = "forwardeuler" if rec == "none" and rng.random() < .5 else rng.choice(ITS)
                P.append(simple_wave(rng, "wave-%s-%s-%s-%d%s-%d" % (flux, rec, it, nd, "xyz"[ax], rep), flux, rec, it, nd, ax, N1 if nd < 3 else (48, 96, 144), rng.choice([None, 1.67, 1.2])))
        for flux, diff in (("tecno1", None), ("tecno4", None), ("tecno6", None), ("central", None), ("tecno1", ("tecnoroe", "none")), ("tecno4", ("tecnoroe", "eno3")),
                           ("tecno4", ("tecnorusanov", "eno4")), ("tecno6", ("tecnorusanov", "eno3")), ("tecno4", ("tecnoroe", "eno2"))):
            nd, ax = rng.choice(pos[:9])
            if not diff and rng.random() < .4: nd, ax = rng.choice(pos)
            if flux == "tecno6" and nd == 3: nd = 2; ax = min(ax, 1)
            P.append(simple_wave(rng, "wave-%s%s-%d%s-%d" % (flux, "-" + "-".join(diff) if diff else "", nd, "xyz"[ax], rep), flux, "none", "rungekutta4", nd, ax, (48, 96, 192), rng.choice([None, 1.67]), diff))
        for nd, Ns in ((2, (24, 48, 96)), (3, (12, 24, 48) if T else (12, 24))):
            low = 0 if nd == 2 or T else .35
            for rec in (["none", "mc", "eno3", "eno4", "weno3"] if nd == 2 or T else ["none", "eno3"]):
                for eqn, flux in (("linear", "upwind"), ("euler%d" % nd, "hll3"), ("burgers", "godunov")):
                    if rep and rng.random() < .4: continue
                    it = rng.choice(["rungekutta3", "rungekutta4"])
                    p = oblique(rng, "oblique-%s-%s-%s-%dd-%d" % (eqn, rec, it, nd, rep), eqn, flux, rec, it, nd, Ns)
                    p.rate -= low; P.append(p)
        P.append(oblique(rng, "oblique-tecno4-2d-%d" % rep, "euler2", "tecno4", "none", "rungekutta4", 2, (24, 48, 96), rng.choice([None, 1.67])))
        P.append(oblique(rng, "oblique-tecno4-eno4-2d-%d" % rep, "euler2", "tecno4", "none", "rungekutta4", 2, (24, 48, 96), None, ("tecnoroe", "eno4")))
        for flux, rec in (("tecno4", "none"), ("hll3", "weno3"), ("hll", "mc")):
            p = vortex(rng, "vortex-%s-%s-%d" % (flux, rec, rep), flux, rec, "rungekutta4", (48, 96, 192) if T else (48, 96))
            p.rate -= .3; P.append(p)
        # Riemann problems
        N2 = (64, 192, 576)
        U = rng.uniform
        S = {"linear": [(U(1, 2), U(-1, 0)), (U(-1, 0), U(1, 2))],
             "burgers": [(U(1, 1.5), U(-.4, .4)), (U(.3, .6), U(-1.5, -1)), (U(-1.2, -.5), U(.4, 1)), (U(.1, .3), U(.9, 1.4)), (U(-1.4, -1), U(-.4, -.1))],
             "cubic": [(U(.8, 1.2), U(-.2, .3)), (U(-1, -.7), U(.7, 1)), (U(.6, 1), U(-1, -.6)), (U(-.1, .1), U(.9, 1.1)), (U(.9, 1.2), U(-.55, -.45))],
             "buckleyleverett": [(U(.3, .45), U(.02, .15)), (U(.05, .12), U(.35, .45))]}
        for eqn, fl in SCALAR.items():
            for flux in fl:
                D = list(S[eqn])
                if eqn == "buckleyleverett" and flux == "godunov": D += [(U(.75, .95), U(.2, .3)), (U(.2, .3), U(.75, .95))]
                for i, d in enumerate(D):
                    if flux == "roe" and eqn == "burgers" and d[0] < 0 < d[1]: continue      # no entropy fix
                    nd, ax = rng.choice(pos)
                    P.append(riemann_scalar(rng, "riemann-%s-%s-%d-%d%s-%d" % (eqn, flux, i, nd, "xyz"[ax], rep), eqn, flux, nd, ax, N2 if nd < 3 else (64, 128, 256), d))
        E = {"sod": ((1., 0., 1.), (.125, 0., .1)), "dos": ((.1, U(-.1, .1), .1), (U(.8, 1.2), 0., 1.)), "collision": ((U(.8, 1.2), U(1.5, 2), 1.), (1., U(-2, -1.5), U(.5, 1))),
             "expansion": ((1., U(-1, -.6), .6), (U(.8, 1.2), U(.6, 1), .5)), "supersonic": ((1., U(2.5, 3), U(.8, 1)), (U(.3, .6), U(1.8, 2.2), .4)),
             "supersonic-": ((U(.3, .6), U(-2.2, -1.8), .4), (1., U(-3, -2.5), U(.8, 1))), "contact": ((U(1, 2), U(.3, .5), 1.), (U(.3, .6), None, 1.)),
             "strong": ((1., 0., U(50, 200)), (1., 0., U(.05, .2))), "rarefaction": ((1., U(.5, .8), 1.), (U(.4, .5), U(1.2, 1.5), U(.2, .4)))}
        E["contact"] = (E["contact"][0], (E["contact"][1][0], E["contact"][0][1], 1.))
        for name, d in E.items():
            for flux in ("hll", "hll3", "tecno"):
                if flux == "tecno" and name in ("strong", "collision", "expansion", "supersonic", "supersonic-"): continue
                nd, ax = rng.choice(pos)
                diff = None
                if flux == "tecno":
                    nd, ax = rng.choice(pos[:9]); diff = (rng.choice(["tecnoroe", "tecnorusanov"]), "none")
                P.append(riemann_euler(rng, "riemann-euler-%s-%s-%d%s-%d" % (name, flux, nd, "xyz"[ax], rep), "tecno1" if diff else flux, nd, ax,
                                       N2 if nd < 3 else (64, 128, 256), d, rng.choice([None, 1.67]), diff=diff, it="rungekutta2" if diff else "forwardeuler"))
    def cost(p):
        c = p.make(p.Ns[-1])
        return int(np.prod(c.dims)) * max(c.dims)
    return sorted(P, key=cost, reverse=True)


def integrators(ck, rng):
    """(key, case maker(cfl), Courant numbers, order): differences from a run with tiny steps."""
    J = []
    for rep in range(5 if ck.thorough else 1):
        for it in ORDER:
            for eqn, flux in (("linear", "upwind"), ("burgers", "godunov"), ("cubic", "rusanov"), ("euler1", "hll"), ("euler2", "hll"), ("linear", "central"), ("burgers", "central"), ("euler1", "tecno1")):
                if flux in ("central", "tecno1") and it in ("forwardeuler", "rungekutta2"): continue
                nd = int(eqn[5]) if eqn.startswith("euler") else rng.choice([1, 2])
                lo, up = box(rng, nd)
                c = cases.Case("time-%s-%s-%s-%d" % (it, eqn, flux, rep), eq=eqn, flux=flux, integ=it, dims=(24, 12 if nd > 1 else 1, 1), lower=lo, upper=up)
                z, y, x = np.meshgrid(*[(np.arange(n) + .5) / n for n in c.dims[::-1]], indexing="ij")
                m = [modes(rng, 0, 1.) for _ in range(6)]
                w = lambda k: m[k](x + (y if nd > 1 else 0))
                if eqn.startswith("euler"):
                    v = [.4, .5]             # subsonic and with a uniform sign of every wave speed: smooth fluxes
                    c.P = np.stack([1 + .2 * w(0)] + [v[k] + .1 * w(1 + k) for k in range(nd)] + [1 + .2 * w(4)])
                else: c.P = (.8 + .3 * w(0))[None]
                c.end = float("%.5g" % (.4 * min(up[d] - lo[d] for d in range(nd))))
                J.append((c, (.4, .2, .1) if it != "forwardeuler" else (.2, .1, .05), ORDER[it]))
    return J


def stalls(c):
    """ENO stencils of smooth data are known to switch at rounding-sized differences, which stops
    the convergence at an already small error; an error this small is taken for converged."""
    r = c.recon + str(c.diff)
    return 3e-6 if "eno4" in r else 1e-5 if "eno3" in r else 0


def body(ck):
    b = build.ensure(("alsvinncli", "alsrec"))
    rng = random.Random("C21-%d" % ck.seed)
    P, J = problems(ck, rng), integrators(ck, rng)
    if ck.only: P, J = [p for p in P if ck.only in p.key], [j for j in J if ck.only in j[0].key]

    def one(ip):
        i, p = ip
        errs, jump = [], 0
        for N in p.Ns:
            c = p.make(N)
            U, E = values(c, p.exact, 0., p.points), values(c, p.exact, p.t, p.points)
            R, run_ = solve(ck, b, c, U, p.t, os.path.join(ck.scratch, "p%d-%d" % (i, N)))
            if R is None: return p, c, None, run_
            s = np.abs(E).reshape(len(E), -1).max(1) + 1e-300
            s = np.maximum(s, s.max() * 1e-3)
            errs.append(float((np.abs(R - E).reshape(len(E), -1).mean(1) / s).sum()))
        return p, c, errs, run_
    for p, c, errs, R in run.pool(one, list(enumerate(P))):
        info = dict(c.describe(), problem=p.key, what=p.what, t=p.t, grids=p.Ns)
        if errs is None: ck.violation(p.key + ":run", "exit %s: %s" % (R.res.rc, R.res.tail(300)), info); continue
        rate = math.log(errs[0] / errs[-1]) / math.log(p.Ns[-1] / p.Ns[0]) if errs[-1] > 0 else 99
        info.update(errors=errs, rate=rate, wanted=p.rate)
        ck.saw(p.key.rsplit("-", 1)[0], len(errs)); ck.count("problems")
        if os.environ.get("VF_RATES"): print("%-52s %s rate %.2f wanted %.2f" % (p.key, " ".join("%.2e" % e for e in errs), rate, p.rate), flush=True)
        if not (rate >= p.rate or errs[-1] < 1e-10 or p.what and errs[-1] < 1 / p.Ns[-1] or stalls(c) and errs[-1] < stalls(c)) or not np.isfinite(errs).all():
            ck.violation(p.key, "errors %s on %s cells: rate %.2f below %.2f" % (" ".join("%.3g" % e for e in errs), p.Ns, rate, p.rate), info)
        ck.sample(info)

    def two(ij):
        i, (c, cfls, order) = ij
        out = []
        U = ref.equation(c.eq, c.gamma, c.nd).to_cons(c.P)
        for k, q in enumerate(list(cfls) + [.002 if order > 1 else .0005]):
            d = c.copy(); d.cfl = q
            if k == len(cfls) and order < 3: d.integ = "rungekutta3"
            out.append(solve(ck, b, d, U, c.end, os.path.join(ck.scratch, "t%d-%d" % (i, k))))
        return c, cfls, order, out
    for c, cfls, order, out in run.pool(two, list(enumerate(J))):
        if any(o[0] is None for o in out): ck.violation(c.key + ":run", "run failed: %s" % out[0][1].res.tail(300), c.describe()); continue
        errs = [float(np.abs(o[0] - out[-1][0]).max()) for o in out[:-1]]
        ck.saw("time-" + c.key.split("-")[1] + c.eq + c.flux, len(errs)); ck.count("time_orders")
        rate = math.log(errs[0] / errs[-1]) / math.log(cfls[0] / cfls[-1]) if errs[-1] > 0 else 99
        if os.environ.get("VF_RATES"): print("%-52s %s rate %.2f order %d" % (c.key, " ".join("%.2e" % e for e in errs), rate, order), flush=True)
        info = dict(c.describe(), courant=cfls, errors=errs, rate=rate)
        if errs[-1] > 3e-13 and not order - .5 <= rate or not np.isfinite(errs).all():
            ck.violation(c.key, "time errors %s for Courant numbers %s: rate %.2f instead of %d" % (" ".join("%.3g" % e for e in errs), cfls, rate, order), info)
        ck.sample(info)


if __name__ == "__main__":
    report.main(report.Check("C21", rule="number of (problem class, equation, flux, reconstruction, integrator, direction) cases whose error was measured on every grid of a refinement"), body)
