"""Definitions of the functionals, evaluated on whole arrays."""
import numpy as np
from numpy.polynomial import legendre as npl
from . import ref


def P(n, x): return npl.legval(x, [0] * n + [1])


def shifts(nd, h):
    """All points of the surface of the cube of half width h (the two end points in 1-D)."""
    r = range(-h, h + 1)
    pts = [(a, b, c) for a in r for b in (r if nd > 1 else [0]) for c in (r if nd > 2 else [0])]
    return [p for p in pts if max(map(abs, p)) == h]


def value(f, n, U, part, c, gamma):
    """Functional f of variable index n of U [var,z,y,x]; result [z,y,x], and its size for rounding."""
    u = U[n]; nd = c.nd; k = f["name"]
    one = lambda v, s=None: (np.array(v, float).reshape(1, 1, -1), np.array(v if s is None else s, float).reshape(1, 1, -1))
    if k == "identity": return u, np.abs(u)
    if k == "moment": v = u ** f["degree"]; return v, np.abs(v)
    if k == "bv":
        p = f["degree"]
        if nd == 1: v = (np.abs(np.diff(u, axis=2)) ** p).sum()
        else: v = (np.sqrt(np.diff(u, axis=2)[:, 1:] ** 2 + np.diff(u, axis=1)[:, :, 1:] ** 2) ** p).sum()
        return one([v])
    if k in ("legendre", "legendre_pointwise"):
        if "variables" in f and names(c)[n] not in f["variables"].split(): return (np.zeros(1), np.zeros(1)) if k == "legendre" else (0 * u, 0 * u)
        s = (u - f["minValue"]) / (f["maxValue"] - f["minValue"])
        if k == "legendre_pointwise": v = P(f["degree"], s); return v, P(f["degree"], 2 + np.abs(s))
        nx, ny = u.shape[2], u.shape[1]
        X = (2 * (np.arange(nx) + .5) / nx - 1)[None, None]; Y = (2 * (np.arange(ny) + .5) / ny - 1)[None, :, None]
        v = P(f["degree_k"], X) * P(f["degree_n"], Y) * P(f["degree_m"], s) * c.h[0] * c.h[1]
        size = np.abs(P(f["degree_k"], X) * P(f["degree_n"], Y)) * P(f["degree_m"], 2 + np.abs(s)) * c.h[0] * c.h[1]
        return one([v.sum()], [size.sum()])
    if k == "log_entropy":
        eq = ref.Euler(nd, gamma)
        if n != eq.nv - 1: return one([0.])
        E = eq.E(U) * np.prod([c.h[d] for d in range(nd)]); return one([E.sum()], [np.abs(E).sum() + np.prod(c.h[:nd]) * U[0].sum() * 10])
    if k == "structure_base":
        a = {0: 2, 1: 1, 2: 0}[f["direction"]]
        v = [(np.abs(u - np.roll(u, -h, axis=a)) ** f["p"]).mean() for h in range(f["numberOfH"])]
        return one(v, np.abs(v))
    if k == "structure_cube":
        v = [0.]
        n3 = u.shape[::-1]
        for h in range(1, f["numberOfH"]):
            t = 0
            for s in shifts(nd, h):
                idx = [np.arange(n3[d]) + s[d] for d in range(3)]
                idx = [i % n3[d] for d, i in enumerate(idx)] if c.boundary == "periodic" else [np.clip(i, 0, n3[d] - 1) for d, i in enumerate(idx)]
                t += (np.abs(u - u[np.ix_(idx[2], idx[1], idx[0])]) ** f["p"]).sum()
            v.append(t / u.size)
        return one(v, v)
    raise KeyError(k)


def names(c): return ref.equation(c.eq, c.gamma, c.nd).names


def bv_direction(u, d, p): return (np.abs(np.diff(u, axis=2 - d)) ** p).sum()


def two_point(u, d1, d2, m):
    """[h1, h2]; beyond the end the last cell counts (Neumann)."""
    def at(d, h):
        i = [np.arange(n) for n in u.shape]; i[2 - d] = np.minimum(i[2 - d] + h, u.shape[2 - d] - 1)
        return u[np.ix_(*i)]
    out = np.zeros((m, m)); size = np.zeros((m, m))
    for a in range(m):
        for b in range(m):
            t = (at(d1, a) - u) ** 2 * (at(d2, b) - u); out[a, b] = t.mean(); size[a, b] = np.abs(t).mean()
    return out, size


def base(u, d, p, m, boundary="periodic"):
    out = []
    for h in range(m):
        i = [np.arange(n) for n in u.shape]; k = i[2 - d] + h
        i[2 - d] = k % u.shape[2 - d] if boundary == "periodic" else np.minimum(k, u.shape[2 - d] - 1)
        out.append((np.abs(u - u[np.ix_(*i)]) ** p).mean())
    return np.array(out)
