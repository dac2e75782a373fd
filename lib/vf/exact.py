"""Exact solutions: smooth waves (before shocks form) and Riemann problems."""
import numpy as np
from . import ref

GX, GW = np.polynomial.legendre.leggauss(4)


def averages(fun, lower, h, dims, nd, sub=None):
    """Cell averages [var, z, y, x] of fun(X, Y, Z) -> [var, ...] by Gauss quadrature."""
    out = 0
    ax = [lower[d] + (np.arange(dims[d]) + .5) * h[d] for d in range(3)]
    pts = [[(g * h[d] / 2, w / 2) for g, w in zip(GX, GW)] if d < nd else [(0., 1.)] for d in range(3)]
    for ox, wx in pts[0]:
        for oy, wy in pts[1]:
            for oz, wz in pts[2]:
                Z, Y, X = np.meshgrid(ax[2] + oz, ax[1] + oy, ax[0] + ox, indexing="ij")
                out = out + wx * wy * wz * fun(X, Y, Z)
    return out


def characteristic(u0, speed, x, t, period=1.0):
    """u(x, t) = u0(x0) with x0 + t speed(u0(x0)) = x, by bisection (before shocks)."""
    a = np.linspace(0, period, 2001)
    s = speed(u0(a)); lo, hi = x - t * s.max() - 1e-9, x - t * s.min() + 1e-9
    for _ in range(60):
        m = .5 * (lo + hi)
        big = m + t * speed(u0(m)) > x
        hi = np.where(big, m, hi); lo = np.where(big, lo, m)
    return u0(.5 * (lo + hi))


def breaking(u0, speed, period=1.0):
    a = np.linspace(0, period, 20001)
    d = np.diff(speed(u0(a))) / np.diff(a)
    return 1 / -d.min() if d.min() < 0 else np.inf


def scalar_riemann(eq, L, R, xi, n=4001):
    """Entropy solution at x/t = xi: minimiser (L<R) or maximiser of f(u) - xi u."""
    u = np.linspace(min(L, R), max(L, R), n)
    g = eq.f(u)[None] - np.asarray(xi).ravel()[:, None] * u[None]
    i = np.argmin(g, 1) if L < R else np.argmax(g, 1)
    return u[i].reshape(np.shape(xi))


def euler_riemann(L, R, gamma, xi):
    """Toro's exact solver without vacuum; L, R = (rho, u, p); returns arrays rho, u, p and
    which side of the contact each point is (True = left)."""
    g = gamma
    (rl, ul, pl), (rr, ur, pr) = L, R
    al, ar = np.sqrt(g * pl / rl), np.sqrt(g * pr / rr)

    def f(p, r, q, a):
        return (p - q) * np.sqrt(2 / ((g + 1) * r) / (p + (g - 1) / (g + 1) * q)) if p > q else 2 * a / (g - 1) * ((p / q) ** ((g - 1) / (2 * g)) - 1)
    lo, hi = 1e-12, 10 * max(pl, pr)
    fun = lambda p: f(p, rl, pl, al) + f(p, rr, pr, ar) + ur - ul
    while fun(hi) < 0: hi *= 2
    for _ in range(200):
        m = .5 * (lo + hi)
        if fun(m) > 0: hi = m
        else: lo = m
    p = .5 * (lo + hi)
    u = .5 * (ul + ur) + .5 * (f(p, rr, pr, ar) - f(p, rl, pl, al))
    xi = np.asarray(xi, float)
    left = xi < u
    out = np.empty((3,) + xi.shape)

    def side(r0, u0, p0, a0, s, xi, sgn):
        # sgn = 1: left wave; for the right wave the problem is mirrored
        v, us, x = sgn * u0, sgn * u, sgn * xi
        res = np.empty((3,) + xi.shape)
        if p > p0:
            rs = r0 * (p / p0 + (g - 1) / (g + 1)) / ((g - 1) / (g + 1) * p / p0 + 1)
            S = v - a0 * np.sqrt((g + 1) / (2 * g) * p / p0 + (g - 1) / (2 * g))
            pre = x < S
            for k, (q, w) in enumerate(((r0, rs), (v, us), (p0, p))): res[k] = np.where(pre, q, w)
        else:
            rs = r0 * (p / p0) ** (1 / g); as_ = a0 * (p / p0) ** ((g - 1) / (2 * g))
            head, tail = v - a0, us - as_
            c = 2 / (g + 1) + (g - 1) / ((g + 1) * a0) * (v - x)
            c = np.maximum(c, 1e-12)
            fan = (r0 * c ** (2 / (g - 1)), 2 / (g + 1) * (a0 + (g - 1) / 2 * v + x), p0 * c ** (2 * g / (g - 1)))
            for k, (q, w) in enumerate(((r0, rs), (v, us), (p0, p))): res[k] = np.where(x < head, q, np.where(x > tail, w, fan[k]))
        res[1] *= sgn
        return res
    A = side(rl, ul, pl, al, None, xi, 1)
    B = side(rr, ur, pr, ar, None, xi, -1)
    for k in range(3): out[k] = np.where(left, A[k], B[k])
    return out, left
