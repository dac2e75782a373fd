"""Independent reference model (numpy) of the semi-discrete schemes, written from
their published definitions.  Arrays are [variable, z, y, x], ghost cells
included in the active directions.

The model is the oracle for one step: given the state the executable itself
recorded at step k (ghost cells included) it says what the state and the time
step of step k+1 have to be, so errors do not accumulate and chaotic growth does
not matter."""
import numpy as np

AX = {0: 3, 1: 2, 2: 1}          # direction -> axis of [var, z, y, x]
EPSW = 1e-8


# ---------------------------------------------------------------- equations
class Scalar:
    nv, names, prim, extra = 1, ["u"], ["u"], []

    def __init__(self, nd=1, gamma=None): self.nd = nd
    def to_cons(self, P): return P.copy()
    def to_prim(self, U): return U.copy()
    def derived(self, U): return U[:0]
    def speed(self, U, d): return np.abs(self.df(U[0]))
    def flux(self, U, d): return self.f(U[0])[None]
    def weight(self, U): return U[0]
    def ok(self, U): return (U[0] == U[0]) & (U[0] < np.inf)


class Burgers(Scalar):
    name = "burgers"
    def f(self, u): return 0.5 * u * u
    def df(self, u): return u
    def v(self, U): return 1 / (2 - U) - 1 / U                  # E = -log(2-u) - log(u)
    def E(self, U): return -np.log(2 - U[0]) - np.log(U[0])
    def psi(self, U, d): return self.v(U)[0] * 0.5 * U[0] ** 2 + 2 * U[0] + 2 * np.log(2 - U[0])
    def R(self, U, d): return np.ones((1, 1) + U.shape[1:])
    def lam(self, U, d): return U


class BuckleyLeverett(Scalar):
    name = "buckleyleverett"
    def f(self, u): return u * u / (u * u + (1 - u) ** 2)
    def df(self, u): return 2 * u * (1 - u) / (u * u + (1 - u) ** 2) ** 2


class Cubic(Scalar):
    name = "cubic"
    def f(self, u): return u ** 3 / 3
    def df(self, u): return u * u


class Linear(Scalar):
    name = "linear"
    def f(self, u): return u
    def df(self, u): return np.ones_like(u)


class Euler:
    def __init__(self, nd, gamma=None):
        self.nd, self.g = nd, 1.4 if gamma is None else gamma
        self.name, self.nv = "euler%d" % nd, nd + 2
        self.names = ["rho"] + ["mx", "my", "mz"][:nd] + ["E"]
        self.prim = ["rho"] + ["ux", "uy", "uz"][:nd] + ["p"]
        self.extra = ["p"] + ["ux", "uy", "uz"][:nd]

    def split(self, U):
        rho, m, E = U[0], U[1:-1], U[-1]
        u = m / rho
        return rho, u, E, (self.g - 1) * (E - 0.5 * rho * (u * u).sum(0)) if False else (self.g - 1) * (E - 0.5 * (m * m).sum(0) / rho)

    def to_cons(self, P):
        U = P.copy()
        U[1:-1] = P[:1] * P[1:-1]
        U[-1] = P[-1] / (self.g - 1) + 0.5 * P[0] * (P[1:-1] ** 2).sum(0)
        return U

    def to_prim(self, U):
        rho, u, E, p = self.split(U)
        return np.concatenate([rho[None], u, p[None]])

    def derived(self, U):
        rho, u, E, p = self.split(U)
        return np.concatenate([p[None], u])

    def flux(self, U, d):
        rho, u, E, p = self.split(U)
        F = U * u[d]
        F[1 + d] += p
        F[-1] += p * u[d]
        return F

    def speed(self, U, d):
        rho, u, E, p = self.split(U)
        return np.abs(u[d]) + np.sqrt(self.g * p / rho)

    def weight(self, U): return U[0]

    def ok(self, U):
        rho, u, E, p = self.split(U)
        return np.isfinite(rho) & (rho > 0) & (p > 0)

    def v(self, U):
        rho, u, E, p = self.split(U)
        s = np.log(p) - self.g * np.log(rho)
        return np.concatenate([((self.g - s) / (self.g - 1) - rho * (u * u).sum(0) / (2 * p))[None], U[1:-1] / p, (-rho / p)[None]])

    def E(self, U):
        rho, u, E, p = self.split(U)
        return -rho * (np.log(p) - self.g * np.log(rho)) / (self.g - 1)

    def psi(self, U, d): return U[1 + d]

    def lam(self, U, d):
        rho, u, E, p = self.split(U)
        a = np.sqrt(self.g * p / rho)
        return np.stack([u[d] - a] + [u[d]] * self.nd + [u[d] + a])

    def R(self, U, d):
        rho, u, E, p = self.split(U)
        nd, g = self.nd, self.g
        a = np.sqrt(g * p / rho)
        H = (E + p) / rho
        M = np.zeros((nd + 2, nd + 2) + rho.shape)
        for c, s in ((0, -1), (nd + 1, 1)):
            M[0, c] = 1
            for k in range(nd): M[1 + k, c] = u[k]
            M[1 + d, c] = u[d] + s * a
            M[-1, c] = H + s * u[d] * a
        M[0, 1] = 1
        for k in range(nd): M[1 + k, 1] = u[k]
        M[-1, 1] = 0.5 * (u * u).sum(0)
        # shear waves: in the frame turned so that direction d comes first
        turn = {0: [(1, 1), (2, 1)], 1: [(0, -1), (2, 1)], 2: [(1, 1), (0, -1)]}[d]
        for c in range(2, nd + 1):
            k, s = turn[c - 2]
            M[1 + k, c] = s
            M[-1, c] = s * u[k]
        # scaled so that R R^T is the derivative of the conserved by the entropy variables
        a1, a2 = np.sqrt(rho / (2 * g)), np.sqrt(rho * (g - 1) / g)
        M = M * np.stack([a1, a2] + [np.sqrt(p)] * (nd - 1) + [a1])[None]
        return M


def equation(name, gamma=None, nd=1):
    if name.startswith("euler"): return Euler(int(name[5]), gamma)
    return {"burgers": Burgers, "buckleyleverett": BuckleyLeverett, "cubic": Cubic, "linear": Linear}[name](nd)


# ------------------------------------------------------------ two-point fluxes
def logmean(a, b):
    f = (a - b) / (a + b)
    f2 = f * f
    with np.errstate(all="ignore"):
        far = (a - b) / (np.log(a) - np.log(b))
    near = 0.5 * (a + b) / (1 + f2 * (1 / 3 + f2 * (1 / 5 + f2 * (1 / 7 + f2 / 9))))
    return np.where(f2 < 1e-3, near, far)      # both agree to ~1e-15 there


def hll_speeds(eq, L, R, d, three):
    rl, ul, El, pl = eq.split(L)
    rr, ur, Er, pr = eq.split(R)
    wl, wr = np.sqrt(rl), np.sqrt(rr)
    u = (wl * ul[d] + wr * ur[d]) / (wl + wr)
    p = (wl * pl + wr * pr) / (wl + wr)
    cs = np.sqrt(eq.g * p / (0.5 * (rl + rr)))
    c = 0.5 * np.maximum(0, ul[d] - ur[d]) if three else 0.0
    return (np.fmin(ul[d] + c - np.sqrt(eq.g * pl / rl), u - cs),
            np.fmax(ur[d] - c + np.sqrt(eq.g * pr / rr), u + cs))


def two_point(eq, name, L, R, d):
    """Flux and wave speed of the named two-point flux for left/right states."""
    with np.errstate(all="ignore"):
        if not isinstance(eq, Euler):
            ws = np.maximum(eq.speed(L, d), eq.speed(R, d))
            fl, fr = eq.flux(L, d), eq.flux(R, d)
            if name == "central": return 0.5 * (fl + fr), ws
            if name == "rusanov": return 0.5 * (fl + fr) - 0.5 * ws * (R - L), ws
            if name == "upwind": return fl, ws
            if name == "godunov":
                if eq.name in ("burgers", "buckleyleverett"):
                    return np.maximum(eq.f(np.maximum(L, 0)), eq.f(np.minimum(R, 0))), ws
            if name == "roe":
                if eq.name == "burgers":
                    return np.where(L >= -R, eq.f(np.maximum(L, 0)), eq.f(np.minimum(R, 0))), ws
                if eq.name == "cubic": return fl, ws       # secant slope is never negative
                if eq.name == "linear": return fl, ws
            if name == "tecno1":
                dv = eq.v(R)[0] - eq.v(L)[0]                # nearly equal states: the quotient is the mean of f, [f] / 2 off by O([u]^2)
                return np.where(np.abs(L - R) <= 1e-5 * np.maximum(np.abs(L), np.abs(R)), 0.5 * (fl + fr), (eq.psi(R, d) - eq.psi(L, d)) / dv), ws
            raise KeyError((eq.name, name))
        if name == "central":
            return 0.5 * (eq.flux(L, d) + eq.flux(R, d)), np.maximum(eq.speed(L, d), eq.speed(R, d))
        three = name != "hll"
        sl, sr = hll_speeds(eq, L, R, d, three)
        ws = np.fmax(np.abs(sl), np.abs(sr))
        fl, fr = eq.flux(L, d), eq.flux(R, d)
        if name == "hll":
            mid = (sr * fl - sl * fr + sr * sl * (R - L)) / (sr - sl)
            return np.where(sl >= 0, fl, np.where(sr < 0, fr, mid)), ws
        rl, ul, El, pl = eq.split(L)
        rr, ur, Er, pr = eq.split(R)
        if name == "hll3":
            dl, dr = ul[d] - sl, ur[d] - sr
            aa = dr * rr - dl * rl
            sm = (R[1 + d] * dr - L[1 + d] * dl + pr - pl) / aa
            us = (fr[1:-1] - fl[1:-1] - sr * R[1:-1] + sl * L[1:-1]) / aa
            us = us.copy(); us[d] = sm

            def star(U, F, r, u, E, p, s, dd):
                rs = r * dd / (sm - s)
                ps = p + r * (u[d] - sm) * dd
                es = (dd * E + p * u[d] - ps * sm) / (sm - s)
                S = np.concatenate([rs[None], rs * us, es[None]])
                return F + s * (S - U)
            ml = star(L, fl, rl, ul, El, pl, sl, dl)
            mr = star(R, fr, rr, ur, Er, pr, sr, dr)
            return np.where(sl >= 0, fl, np.where(sr < 0, fr, np.where(sm >= 0, ml, mr))), ws
        if name == "tecno1":
            zl = np.concatenate([np.ones_like(rl)[None], ul, pl[None]]) * np.sqrt(rl / pl)
            zr = np.concatenate([np.ones_like(rr)[None], ur, pr[None]]) * np.sqrt(rr / pr)
            b = 0.5 * (zl + zr)
            F = np.empty_like(L)
            F[0] = b[1 + d] * logmean(zl[-1], zr[-1])
            F[1:-1] = b[1:-1] / b[0] * F[0]
            F[1 + d] += b[-1] / b[0]
            F[-1] = 1 / (2 * b[0]) * ((eq.g + 1) / (eq.g - 1) * F[0] / logmean(zl[0], zr[0]) + (b[1:-1] * F[1:-1]).sum(0))
            return F, ws
        raise KeyError((eq.name, name))


FLUXES = {"burgers": ["central", "rusanov", "godunov", "roe", "tecno1", "tecno4", "tecno6", "godunov4", "godunov6"],
          "buckleyleverett": ["central", "rusanov", "godunov"], "cubic": ["central", "rusanov", "roe"],
          "linear": ["central", "rusanov", "roe", "upwind"]}
for _n in (1, 2, 3): FLUXES["euler%d" % _n] = ["hll", "hll3", "central", "tecno1", "tecno4", "tecno6"]


def flux_width(name): return 4 if name.endswith("4") else 6 if name.endswith("6") else 2
def flux_base(name): return name[:-1] + ("1" if name.startswith("tecno") else "") if name[-1] in "46" else name


# ------------------------------------------------------------ reconstruction
RECONS_E = ["none", "eno2", "eno3", "eno4", "weno2", "weno3", "wenof2", "mc", "mm"]
ENOC = {2: [[3 / 2, -1 / 2], [1 / 2, 1 / 2], [-1 / 2, 3 / 2]],
        3: [[11 / 6, -7 / 6, 1 / 3], [1 / 3, 5 / 6, -1 / 6], [-1 / 6, 5 / 6, 1 / 3], [1 / 3, -7 / 6, 11 / 6]],
        4: [[25 / 12, -23 / 12, 13 / 12, -1 / 4], [1 / 4, 13 / 12, -5 / 12, 1 / 12], [-1 / 12, 7 / 12, 7 / 12, -1 / 12],
            [1 / 12, -5 / 12, 13 / 12, 1 / 4], [-1 / 4, 13 / 12, -23 / 12, 25 / 12]]}
GHOST = {"none": 1, "eno2": 2, "eno3": 3, "eno4": 4, "weno2": 2, "weno3": 3, "wenof2": 2, "mc": 2, "mm": 2}


def _minmod(*a):
    s = np.sign(a[0])
    same = np.all([np.sign(x) == s for x in a], axis=0)
    return np.where(same, s * np.min(np.abs(np.stack(a)), axis=0), 0.0)


def eno_shift(dd, n, k, g):
    """Number of cells the chosen stencil reaches to the left, and by how much
    the closest of the decisions was taken.  dd[l] holds the
    (l+1)-th differences, dd[l][..., i] over cells i..i+l+1; returns the shift for
    cells i = g-1 .. g+n."""
    lo, hi = g - 1, g + n + 1
    idx = np.arange(lo, hi)
    shift = np.zeros(dd[0].shape[:-1] + (hi - lo,), int)
    margin = np.full(shift.shape, np.inf)
    for l in range(k - 1):
        pos = np.broadcast_to(idx, shift.shape) - shift
        r = np.abs(np.take_along_axis(dd[l], np.minimum(pos, dd[l].shape[-1] - 1), -1))
        lft = np.abs(np.take_along_axis(dd[l], pos - 1, -1))
        with np.errstate(all="ignore"):
            margin = np.minimum(margin, np.abs(lft - r))
        shift = shift + (lft < r)
    return shift, margin


def flat(d0, n, k, g, eps):
    """Cells around which all stencils see the same constant: the choice does not matter."""
    m = np.zeros(d0.shape[:-1] + (n + 2,), bool) | True
    for j in range(-(k - 1), k - 1):
        m &= np.abs(d0[..., g - 1 + j: g + n + 1 + j]) <= eps
    return m


def reconstruct(eq, name, U, g, n, tie=0.0):
    """U[var, ..., n+2g] (direction last).  Left and right interface values of the
    cells g-1 .. g+n, and where the stencil choice is a tie up to `tie` times the
    size of the data (0: the data is exactly what the code works on)."""
    c = slice(g - 1, g + n + 1)
    sh = lambda k: slice(g - 1 + k, g + n + 1 + k) if g + n + 1 + k else slice(g - 1 + k, None)
    near = np.zeros(U[0][..., c].shape, bool)
    if name == "none": return U[..., c], U[..., c], near
    if name in ("mc", "mm"):
        m, l, r = U[..., c], U[..., sh(-1)], U[..., sh(1)]
        s = _minmod(2 * (r - m), (r - l) / 2, 2 * (m - l)) if name == "mc" else _minmod(r - m, m - l)
        return m - s / 2, m + s / 2, near
    if name in ("weno2", "wenof2"):
        w = eq.weight(U)
        b0 = (w[..., sh(1)] - w[..., c]) ** 2; b1 = (w[..., c] - w[..., sh(-1)]) ** 2
        res = []
        for g0, g1 in ((1 / 3, 2 / 3), (2 / 3, 1 / 3)):       # left edge, right edge
            a0, a1 = g0 / (EPSW + b0) ** 2, g1 / (EPSW + b1) ** 2
            res.append((a0 / (a0 + a1), a1 / (a0 + a1)))
        m, l, r = U[..., c], U[..., sh(-1)], U[..., sh(1)]
        if name == "weno2":
            (w0, w1), (z0, z1) = res
            return (m - 0.5 * (w1 * (m - l) + w0 * (r - m)), m + 0.5 * (z1 * (m - l) + z0 * (r - m)), near)
        P = eq.to_prim(U)
        m, l, r = P[..., c], P[..., sh(-1)], P[..., sh(1)]
        out = []
        for (w0, w1), sg in zip(res, (-1, 1)):
            D = w1 * (m - l) + w0 * (r - m)
            for k in (0, -1): D[k] = np.clip(D[k], -1.9 * m[k], 1.9 * m[k])
            du2 = (D[1:-1] ** 2).sum(0)
            LL = 0.125 * m[0] * du2 - 0.5 * np.minimum(0, D[0] * (m[1:-1] * D[1:-1]).sum(0)) + 0.5 * D[0] ** 2 * du2 / m[0]
            Rr = m[-1] / (eq.g - 1)
            out.append(eq.to_cons(m + sg * 0.5 * np.sqrt(Rr / np.maximum(Rr, LL)) * D))
        return out[0], out[1], near
    if name == "weno3":
        w = U[0]
        V = [w[..., sh(k)] for k in (-2, -1, 0, 1, 2)]
        B = [13 / 12 * (V[2] - 2 * V[3] + V[4]) ** 2 + .25 * (3 * V[2] - 4 * V[3] + V[4]) ** 2,
             13 / 12 * (V[1] - 2 * V[2] + V[3]) ** 2 + .25 * (V[1] - V[3]) ** 2,
             13 / 12 * (V[0] - 2 * V[1] + V[2]) ** 2 + .25 * (V[0] - 4 * V[1] + 3 * V[2]) ** 2]
        d = [0.3, 0.6, 0.1]
        out = []
        for side in (0, 1):
            dd = d[::-1] if side == 0 else d
            al = [dd[r] / (B[r] + EPSW) ** 2 for r in range(3)]
            s = sum(al)
            v = 0
            for r in range(3):
                co = ENOC[3][r + side]
                v = v + al[r] / s * sum(co[j] * U[..., sh(j - r)] for j in range(3))
            out.append(v)
        return out[0], out[1], near
    k = int(name[3])
    dd = [np.diff(U[0], axis=-1)]
    for _ in range(k - 2): dd.append(np.diff(dd[-1], axis=-1))
    shift, margin = eno_shift(dd, n, k, g)
    eps = tie * np.nanmax(np.abs(U[0]), initial=0)
    near = (margin <= eps) & ~flat(dd[0], n, k, g, eps)
    idx = np.arange(g - 1, g + n + 1)
    C = np.array(ENOC[k])
    Lo, Ro = 0, 0
    for j in range(k):
        pos = np.broadcast_to(idx, shift.shape) - shift + j
        v = np.take_along_axis(U, np.broadcast_to(pos, U.shape[:-1] + (n + 2,)), -1)
        Lo = Lo + C[shift, j] * v
        Ro = Ro + C[shift + 1, j] * v
    return Lo, Ro, near


# ----------------------------------------------------------------- the scheme
class Scheme:
    def __init__(self, eq, flux, recon="none", integrator="forwardeuler", diffusion=None, boundary="periodic",
                 cfl=None, h=(1, 1, 1), dims=(1, 1, 1), gamma=None):
        self.dims, self.h = dims, h
        self.nd = 3 if dims[2] > 1 else 2 if dims[1] > 1 else 1
        self.eq = equation(eq, gamma, self.nd)
        self.flux, self.recon, self.boundary = flux, recon, boundary
        self.integrator = integrator if integrator != "auto" else "forwardeuler" if recon == "none" else "rungekutta2"
        self.cfl = cfl if cfl is not None else 0.9 if recon == "none" else 0.475
        self.diffusion = diffusion if diffusion and diffusion[0] != "none" else None

    def ghosts(self):
        w = flux_width(self.flux)
        g = max(w - 1, GHOST[self.recon] + w // 2 - 1)
        if self.diffusion: g = max(g, GHOST[self.diffusion[1]])
        return g

    def fill(self, U, g, boundary=None):
        """Ghost cells of the active directions from the interior."""
        U = U.copy()
        b = boundary or self.boundary
        for d in range(self.nd):
            A = np.moveaxis(U, AX[d], -1)
            n = A.shape[-1] - 2 * g
            k = np.arange(g)
            if b == "periodic":
                A[..., :g] = A[..., n:n + g]; A[..., g + n:] = A[..., g:2 * g]
            else:
                A[..., g - 1 - k] = A[..., g + k]; A[..., g + n + k] = A[..., g + n - 1 - k]
        return U

    def _strip(self, U, g, d):
        """Interior in all directions but d, direction d last."""
        sl = [slice(None)] * 4
        for e in range(self.nd):
            if e != d: sl[AX[e]] = slice(g, U.shape[AX[e]] - g)
        return np.moveaxis(U[tuple(sl)], AX[d], -1)

    def interface(self, U, g, d, tie=0.0):
        """Numerical flux at the n+1 interfaces of the interior along d, local
        wave speeds, and a mask of interfaces touched by a near tie."""
        A = self._strip(U, g, d)
        n = A.shape[-1] - 2 * g
        w = flux_width(self.flux)
        if w == 2:
            L, R, near = reconstruct(self.eq, self.recon, A, g, n, tie)
            F, ws = two_point(self.eq, self.flux, R[..., :-1], L[..., 1:], d)
            return F, ws, near[..., :-1] | near[..., 1:]
        if self.recon != "none": raise NotImplementedError
        c = lambda k: A[..., g - 1 + k: g + n + k]
        t = lambda a, b: two_point(self.eq, flux_base(self.flux), c(a), c(b), d)
        if w == 4: terms = [(4 / 3, 0, 1), (-1 / 6, -1, 1), (-1 / 6, 0, 2)]
        else: terms = [(3 / 2, 0, 1), (-.3, -1, 1), (-.3, 0, 2), (1 / 30, -2, 1), (1 / 30, -1, 2), (1 / 30, 0, 3)]
        F, ws, near = 0, 0, np.zeros(c(0).shape[1:], bool)
        for co, a, b in terms:
            f, s = t(a, b)
            F, ws = F + co * f, np.maximum(ws, s)
        return F, ws, near

    def diffuse(self, U, g, d):
        """Numerical diffusion 1/2 R |Lambda| <w> at the interfaces along d."""
        A = self._strip(U, g, d)
        N = A.shape[-1]; n = N - 2 * g
        mid = 0.5 * (A[..., 1:] + A[..., :-1])                   # interface i|i+1
        R = self.eq.R(mid, d)
        lam = np.abs(self.eq.lam(mid, d))
        if self.diffusion[0] == "tecnorusanov": lam = np.broadcast_to(lam.max(0), lam.shape)
        v = self.eq.v(A)
        wl = np.einsum("ij...,i...->j...", R, v[..., :-1])        # left cell, right edge
        wr = np.einsum("ij...,i...->j...", R, v[..., 1:])         # right cell, left edge
        near = np.zeros(mid.shape[1:], bool)
        if self.diffusion[1] != "none":
            k = int(self.diffusion[1][3])
            jump = wr - wl                                        # [i]: between cells i and i+1
            dd = [jump]
            for _ in range(k - 2): dd.append(np.diff(dd[-1], axis=-1))
            shift, margin = eno_shift(dd, n, k, g)
            eps = 1e-9 * np.nanmax(np.abs(wl), initial=0)
            idx = np.arange(g - 1, g + n + 1)
            C = np.array(ENOC[k])
            base = wr[..., idx - 1]                               # cell value seen from its left edge
            cum = np.concatenate([np.zeros(jump.shape[:-1] + (1,)), np.cumsum(jump, -1)], -1)
            Lo, Ro = 0, 0
            for j in range(k):
                pos = np.broadcast_to(idx, shift.shape) - shift + j
                val = base + np.take_along_axis(cum, pos, -1) - cum[..., idx]
                Lo = Lo + np.take(C[:, j], shift) * val
                Ro = Ro + np.take(C[:, j], shift + 1) * val
            Ro = Ro + wl[..., idx] - base
            open_ = (margin <= eps) & ~flat(dd[0], n, k, g, eps)
            near[..., g - 1:g + n] = (open_[..., :-1] | open_[..., 1:]).any(0)
            a, b = Ro[..., :-1], Lo[..., 1:]
        else:
            a, b = wl[..., g - 1:g + n], wr[..., g - 1:g + n]
        s = slice(g - 1, g + n)
        D = 0.5 * np.einsum("ij...,j...->i...", R[..., s], lam[..., s] * (b - a))
        return D, near[..., s]

    def rhs(self, U, g, tie=0.0):
        """dU/dt of the interior, wave speed per direction, near-tie mask."""
        with np.errstate(all="ignore"):
            out, ws, near = 0, [], False
            for d in range(self.nd):
                F, s, t = self.interface(U, g, d, tie)
                D = -np.diff(F, axis=-1)
                nm = t[..., 1:] | t[..., :-1]
                if self.diffusion:
                    Q, t = self.diffuse(U, g, d)
                    D = D + np.diff(Q, axis=-1)
                    nm = nm | t[..., 1:] | t[..., :-1]
                out = out + np.moveaxis(D, -1, AX[d]) / self.h[d]
                near = near | np.moveaxis(nm[None], -1, AX[d])[0]
                ws.append(np.nanmax(s) if np.isfinite(s).any() else np.nan)
            return out, ws, near

    def dt(self, ws): return self.cfl / sum(w / h for w, h in zip(ws, self.h))

    def inner(self, U, g):
        sl = [slice(None)] * 4
        for e in range(self.nd): sl[AX[e]] = slice(g, U.shape[AX[e]] - g)
        return U[tuple(sl)]

    def pad(self, I, g):
        w = [(0, 0)] * 4
        for e in range(self.nd): w[AX[e]] = (g, g)
        return self.fill(np.pad(I, w), g)

    def step(self, U, g, dt):
        """One full step from U (ghosts filled); returns interior after the step,
        wave speeds of the first stage, near-tie mask (spread over the stages)."""
        L = lambda V: self.rhs(V, g)
        u0 = self.inner(U, g)
        k0, ws, near = L(U)
        it = self.integrator

        def again(I):
            nonlocal near
            k, _, t = self.rhs(self.pad(I, g), g, 1e-10)
            if near.any():                    # an undecided cell spoils its neighbours in later stages
                for d in range(self.nd):
                    m = near
                    for q in range(1, g + 1): m = m | np.roll(near, q, AX[d] - 1) | np.roll(near, -q, AX[d] - 1)
                    near = m
            near = near | t
            return k
        if it == "forwardeuler": return u0 + dt * k0, ws, near
        if it == "rungekutta2":
            u1 = u0 + dt * k0
            return 0.5 * (u0 + u1 + dt * again(u1)), ws, near
        if it == "rungekutta3":
            u1 = u0 + dt * k0
            u2 = 0.75 * u0 + 0.25 * (u1 + dt * again(u1))
            return u0 / 3 + 2 / 3 * (u2 + dt * again(u2)), ws, near
        if it == "rungekutta4":
            k1 = again(u0 + 0.5 * dt * k0)
            k2 = again(u0 + 0.5 * dt * k1)
            k3 = again(u0 + dt * k2)
            return u0 + dt / 6 * (k0 + 2 * k1 + 2 * k2 + k3), ws, near
        raise KeyError(it)


def state(eq, step):
    """[var, z, y, x] with ghost cells, of a recorded step."""
    return np.stack([step.vars[n].full for n in eq.names])
