"""Test cases: one configuration plus initial data given cell by cell, running it
with the production executable and reading back every step."""
import os, zlib
import numpy as np
from . import cfg, ref, run

TABLE = '''
import numpy as _np
def init_global({args}, nx, ny, nz, ax, ay, az, bx, by, bz):
    T = _np.load({path!r})
    lo, n, up = {lo!r}, {n!r}, {up!r}
    off = [int(round((a - l) / ((u - l) / m))) if u > l else 0 for a, l, u, m in zip((ax, ay, az), lo, up, n)]
    T = T[:, off[0]:off[0] + nx, off[1]:off[1] + ny, off[2]:off[2] + nz]
    for k, dest in enumerate(({args},)):
        dest[:, :, :] = T[k]
'''


class Case:
    def __init__(self, key, **k):
        self.key = key
        self.eq, self.flux, self.recon, self.integ, self.diff = "burgers", "godunov", "none", "forwardeuler", None
        self.boundary, self.dims, self.lower, self.upper = "periodic", (32, 1, 1), (0., 0., 0.), (1., 1., 1.)
        self.cfl, self.gamma, self.end, self.P = "auto", None, None, None
        self.steps = 4               # about how many steps to run
        self.procs, self.split, self.threads = 1, (1, 1, 1), 1
        self.kind = "noise"
        self.__dict__.update(k)

    def copy(self, key=None, **k):
        c = Case(key or self.key); d = dict(self.__dict__); d.pop("key"); c.__dict__.update(d)
        c.__dict__.update(k); return c

    @property
    def nd(self): return 3 if self.dims[2] > 1 else 2 if self.dims[1] > 1 else 1

    @property
    def h(self): return tuple((self.upper[d] - self.lower[d]) / self.dims[d] for d in range(3))

    def scheme(self):
        # directions with a single cell do not take part
        s = ref.Scheme(self.eq, self.flux, self.recon, self.integ, self.diff, self.boundary,
                       None if self.cfl == "auto" else self.cfl, self.h, self.dims, self.gamma)
        return s

    def rng(self): return np.random.default_rng(zlib.crc32(self.key.encode()) + 7919 * getattr(self, "seed", 1))

    def describe(self):
        d = {k: getattr(self, k) for k in ("key", "eq", "flux", "recon", "integ", "diff", "boundary", "dims", "lower",
                                           "upper", "cfl", "gamma", "end", "kind", "procs", "split", "threads")}
        d["seed"] = getattr(self, "seed", 1)
        return d


def initial(case, kind=None):
    """Primitive initial data [var, z, y, x] of a named kind."""
    r, kind = case.rng(), kind or case.kind
    n = case.dims[::-1]
    eq = ref.equation(case.eq, case.gamma, case.nd)
    Z, Y, X = np.meshgrid(*[(np.arange(m) + .5) / m for m in n], indexing="ij")
    act = [X, Y, Z][:case.nd]
    ph = r.uniform(0, 2 * np.pi, (8, 3))
    wave = lambda k: sum(np.sin(2 * np.pi * a + ph[k, i]) for i, a in enumerate(act)) / case.nd
    box = np.ones(n, bool)
    for a in act:
        c = r.uniform(0, 1)
        box &= ((a - c) % 1.0) < r.uniform(.3, .7)
    uni = lambda a, b: r.uniform(a, b, n)
    if not isinstance(eq, ref.Euler):
        lo, hi = {"burgers": (-1, 1), "cubic": (-1.2, 1.2), "linear": (-3, 2), "buckleyleverett": (0, 1)}[case.eq]
        if case.eq == "burgers" and (case.flux.startswith("tecno") or case.diff): lo, hi = 0.3, 1.7
        a = lambda t: lo + (hi - lo) * t
        if kind == "smooth": u = a(.5 + .45 * wave(0))
        elif kind == "noise": u = a(uni(0, 1))
        elif kind == "shock": u = np.where(box, a(r.uniform(.6, .95)), a(r.uniform(.05, .4)))
        elif kind == "mixed": u = np.where(box, a(.5 + .3 * wave(0)), a(uni(.1, .9)))
        elif kind == "uniform": u = np.full(n, a(r.uniform(.1, .9)))
        elif kind == "spike":
            u = np.full(n, a(.4)); u.flat[r.integers(u.size)] = a(.9); u.flat[r.integers(u.size)] = a(.1)
        else: raise KeyError(kind)
        return u[None]
    P = np.zeros((eq.nd + 2,) + n)
    if kind == "smooth":
        P[0] = 1 + .3 * wave(0); P[-1] = 1 + .3 * wave(1)
        for k in range(eq.nd): P[1 + k] = .6 * wave(2 + k)
    elif kind == "noise":
        P[0] = uni(.5, 2); P[-1] = uni(.5, 2)
        for k in range(eq.nd): P[1 + k] = uni(-.5, .5)
    elif kind == "shock":
        P[0] = np.where(box, 1, .125); P[-1] = np.where(box, 1, .1)
        for k in range(eq.nd): P[1 + k] = np.where(box, r.uniform(-.3, .3), r.uniform(-.3, .3))
    elif kind == "strong":
        P[0] = np.where(box, r.uniform(.1, 5), r.uniform(.1, 5)); P[-1] = np.where(box, 100, r.uniform(.01, 1))
        for k in range(eq.nd): P[1 + k] = np.where(box, r.uniform(-3, 3), r.uniform(-3, 3))
    elif kind == "super":                       # supersonic noise, both signs
        P[0] = uni(.5, 2); P[-1] = uni(.05, .3)
        for k in range(eq.nd): P[1 + k] = np.where(box, 1, -1) * uni(1.5, 3)
    elif kind == "mixed":
        P[0] = np.where(box, uni(.5, 2), 1 + .3 * wave(0)); P[-1] = np.where(box, 1 + .3 * wave(1), uni(.5, 2))
        for k in range(eq.nd): P[1 + k] = np.where(box, .5 * wave(2 + k), uni(-1, 1))
    elif kind == "contact":
        P[0] = np.where(box, 1, r.uniform(.2, 3)); P[-1] = r.uniform(.5, 2)
        for k in range(eq.nd): P[1 + k] = r.uniform(-.8, .8)
    elif kind == "uniform":
        P[0] = r.uniform(.5, 2); P[-1] = r.uniform(.5, 2)
        for k in range(eq.nd): P[1 + k] = r.uniform(-1, 1)
    elif kind == "spike":
        P[0] = 1; P[-1] = 1
        i = r.integers(P[0].size, size=3)
        P[0].flat[i[0]] = 3; P[-1].flat[i[1]] = 4
        for k in range(eq.nd): P[1 + k].flat[i[2]] = .7
    else: raise KeyError(kind)
    return P


def table_script(case, cwd, fname="init.npy"):
    eq = ref.equation(case.eq, case.gamma, case.nd)
    path = os.path.join(cwd, fname)
    os.makedirs(cwd, exist_ok=True)
    np.save(path, np.ascontiguousarray(case.P.transpose(0, 3, 2, 1)))
    return TABLE.format(args=", ".join(eq.prim), path=path, lo=list(case.lower), up=list(case.upper), n=list(case.dims))


def config(case, rec, cwd, **k):
    if case.P is None: case.P = initial(case)
    if case.end is None:
        s = case.scheme()
        U = s.eq.to_cons(case.P)
        w = [float(np.max(s.eq.speed(U, d))) for d in range(case.nd)]
        w = [x if x > 0 else 1.0 for x in w]
        case.end = float("%.6g" % (s.dt(w) * (case.steps - .5)))
    c = cfg.Config(name="run", boundary=case.boundary, flux=case.flux, equation=case.eq, reconstruction=case.recon,
                   cfl=case.cfl, integrator=case.integ, gamma=case.gamma, endTime=case.end, lower=case.lower,
                   upper=case.upper, dim=case.dims, script=table_script(case, cwd), diffusion=case.diff,
                   writer=cfg.recorder(rec) if rec else None)
    c.__dict__.update(k)
    return c


class Run:
    """The outcome of a case: result plus the logs of all processes."""

    def __init__(self, case, res, logs):
        self.case, self.res, self.logs = case, res, logs
        self.eq = ref.equation(case.eq, case.gamma, case.nd)

    @property
    def log(self): return self.logs[(0, 0)]

    def ranks(self): return [self.logs[k] for k in sorted(self.logs) if k[1] == 0]

    def nsteps(self): return min(len(l.steps) for l in self.ranks()) if self.logs else 0

    def glob(self, k):
        """Global arrays of step k: [var, z, y, x], and how often cells were covered."""
        out, cover = run.assemble([l.steps[k] for l in self.ranks()], self.case.lower, self.case.upper, self.case.dims)
        return np.stack([out[n] for n in self.eq.names]), cover

    def times(self): return np.array([s.time for s in self.log.steps])


def execute(build, case, cwd, extra_env=None, timeout=120, exe="alsvinncli", **cfgk):
    rec = os.path.join(build, "verif/libalsrec.so")
    cap = case.end is None           # a run that blows up is not followed to its end
    c = config(case, rec, cwd, **cfgk)
    c.write(cwd)
    if cap: extra_env = dict({"ALSREC_MAX": max(40, 10 * case.steps)}, **(extra_env or {}))
    cmd = [os.path.join(build, "alsvinncli/alsvinncli"), "config.xml"]
    if case.procs > 1:
        for f, s in zip(("--multi-x", "--multi-y", "--multi-z"), case.split): cmd += [f, str(s)]
    res = run.execute(run.mpi(cmd, case.procs), cwd, case.threads, timeout, extra_env)
    return Run(case, res, run.logs(cwd))


def compare_step(sch, U, g, dt, after, scale=None):
    """Worst deviation of the recorded interior `after` from the model's step from
    the recorded U, relative to the size of the variables and of the update.
    Returns (deviation, variable/cell of the worst, wave speeds, compared, skipped)."""
    with np.errstate(all="ignore"):
        pred, ws, near = sch.step(U, g, dt)
    u0 = sch.inner(U, g)
    m = np.abs(u0).reshape(u0.shape[0], -1).max(1)
    m = np.maximum(np.maximum(m, np.abs(after).reshape(m.size, -1).max(1)), m.max() * 1e-3)
    d = np.abs(pred - after) / m[:, None, None, None]
    d = np.where(near[None], 0, d)
    bad = np.isnan(d)
    d = np.where(bad, np.where(np.isnan(pred) & np.isnan(after), 0, np.inf), d)
    i = np.unravel_index(np.argmax(d), d.shape)
    return float(d[i]), i, ws, int((~near).sum()) * d.shape[0], int(near.sum())
