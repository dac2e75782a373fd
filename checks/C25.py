"""Equation classes on random states: fluxes, wave speeds, pressure, conversions,
entropy variables and eigenvectors against the definitions, evaluated in extended
precision; derivatives (Jacobian, gradient of the entropy) by central differences of
extended-precision evaluations of the defining formulas."""
import os, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import numpy as np
from vf import build, ref, report, run

EPS = np.finfo(float).eps
LD = np.longdouble


def parse(text):
    out = []
    for line in text.splitlines():
        w = line.split()
        if not w: continue
        if w[0] == "state": cur = {"dir": {}}; out.append(cur); at = cur
        elif w[0] == "dir": at = cur["dir"].setdefault(int(w[1]), {})
        elif w[0] == "ok": cur["ok"] = int(w[1])
        else: at[w[0]] = np.array([float.fromhex(x) if "x" in x else float(x) for x in w[1:]])
    return out


def states(ck, eq, rng, n):
    r = np.random.default_rng(rng.randrange(2 ** 31))
    if not isinstance(eq, ref.Euler):
        if eq.name == "buckleyleverett": U = r.uniform(-.5, 1.5, n)
        elif eq.name == "burgers": U = np.concatenate([r.uniform(1e-3, 2 - 1e-3, n // 2), r.normal(0, 1, n - n // 2) * 10. ** r.uniform(-6, 3, n - n // 2)])
        else: U = r.normal(0, 1, n) * 10. ** r.uniform(-6, 3, n)
        U[:6] = [0, 1, .5, 1e-300, .25, 1.5]
        return U[None]
    nd = eq.nd
    P = np.empty((nd + 2, n))
    P[0] = 10. ** r.uniform(-4, 4, n)
    P[-1] = 10. ** r.uniform(-4, 4, n)
    a = np.sqrt(eq.g * P[-1] / P[0])
    P[1:-1] = r.normal(0, 1, (nd, n)) * a * 10. ** r.uniform(-3, 1.3, (nd, n))
    P[1:-1, :n // 10] = 0                                      # gas at rest
    for d in range(nd): P[1 + d, n // 10 + d * 5: n // 10 + d * 5 + 5] = 0
    for k in range(5):                                         # exactly sonic
        P[1 + k % nd, n // 5 + k] = a[n // 5 + k] * (-1) ** k
    return eq.to_cons(P)


def jacobian(eq, U, d):
    U = U.astype(LD)
    J = np.empty((eq.nv, eq.nv) + U.shape[1:], LD)
    s = np.abs(U).max(0) if eq.nv == 1 else None
    for j in range(eq.nv):
        h = LD(1e-6) * (np.abs(U[j]) + (np.minimum(np.sqrt(U[0] * eq.split(U)[3]), U[0]) * LD(1e-3) if eq.nv > 1 else 1))
        if eq.nv > 1 and j == eq.nv - 1: h = LD(1e-6) * eq.split(U)[3]
        elif eq.nv > 1 and j > 0: h = LD(1e-6) * np.sqrt(U[0] * eq.split(U)[3])
        a, b = U.copy(), U.copy()
        a[j] += h; b[j] -= h
        J[:, j] = (eq.flux(a, d) - eq.flux(b, d)) / (a[j] - b[j])
    return J


def gradient(eq, U):
    U = U.astype(LD)
    G, T = np.empty_like(U), np.empty_like(U)
    size = np.abs(eq.E(U)) + (U[0] * U[-1] / eq.split(U)[3] if eq.nv > 1 else 1)
    for j in range(eq.nv):
        if eq.nv == 1: h = LD(1e-6) * np.minimum(np.abs(U[0]), np.abs(2 - U[0]))
        else: h = LD(1e-6) * [U[0], np.sqrt(U[0] * eq.split(U)[3]), eq.split(U)[3]][0 if j == 0 else 2 if j == eq.nv - 1 else 1]
        a, b = U.copy(), U.copy()
        a[j] += h; b[j] -= h
        G[j] = (eq.E(a) - eq.E(b)) / (a[j] - b[j])
        T[j] = 64 * np.finfo(LD).eps * size / h
    return G, T


def one(ck, name, gamma, rng):
    np.seterr(all="ignore")                                  # per thread
    nd = int(name[5]) if name.startswith("euler") else 1
    eq = ref.equation(name, gamma, nd)
    key = "%s-%s" % (name, gamma)
    gas = nd if name.startswith("euler") else 0
    n = 20000 if ck.thorough else 3000
    U = states(ck, eq, rng, n)
    # inadmissible states: only the verdict counts
    r = np.random.default_rng(rng.randrange(2 ** 31))
    bad = U[:, r.integers(0, U.shape[1], 120)].copy()
    want = np.zeros(120, int)
    for k in range(120):
        if gas:
            if k % 6 == 0: bad[0, k] *= -1
            elif k % 6 == 1: bad[-1, k] = 0.5 * (bad[1:-1, k] ** 2).sum() / bad[0, k] * (1 - 1e-3) - 1e-3 * abs(bad[0, k])
            elif k % 6 == 2: bad[0, k] = np.nan
            elif k % 6 == 3: bad[1 + k % nd, k] = np.nan
            elif k % 6 == 4: bad[-1, k] = np.nan
            else: bad[0, k] = [0., np.inf, -np.inf][k % 3]
        else:
            bad[0, k] = [np.nan, np.inf, np.nan, np.inf][k % 4]
    A = np.concatenate([U, bad], 1)
    exe = os.path.join(ck.bdir, "verif", "alsmon")
    p = subprocess.run([exe, "eq", name, "-" if gamma is None else repr(gamma)],
                       input="\n".join(" ".join(float(x).hex() if np.isfinite(x) else str(x) for x in A[:, k]) for k in range(A.shape[1])) + "\n",
                       capture_output=True, text=True, env=run.env(1))
    if run.OBSERVE: run.OBSERVE([exe, "eq", name], run.Result(p.returncode, "", p.stderr, False, "", 0))
    got = parse(p.stdout)
    if p.returncode != 0 or len(got) != A.shape[1]:
        ck.violation(key + ":run", "the equation driver ended with %d after %d of %d states: %s" % (p.returncode, len(got), A.shape[1], p.stderr[-300:])); return
    N = U.shape[1]
    col = lambda k, rows=None: np.array([g[k] for g in got[:N]]).T
    dcol = lambda d, k: np.array([g["dir"][d][k] for g in got[:N]]).T

    def cmp(what, G, W, tol, sel=slice(None)):
        G, W = np.asarray(G), np.asarray(W)
        if G.shape != W.shape:
            ck.violation(key + ":" + what, "%s: %d components instead of %d" % (what, G.shape[0], W.shape[0])); return
        err = np.abs(G.astype(LD) - W) - np.broadcast_to(tol, W.shape)
        bad = ~(err <= 0)
        m = np.zeros(N, bool); m[sel] = True
        bad &= m
        ck.saw((name, gamma, what), int(m.sum()) * (W.shape[0] if W.ndim > 1 else 1)); ck.count("values", int(m.sum()))
        if bad.any():
            i = tuple(np.argwhere(bad)[0]); k = i[-1]
            ck.violation(key + ":" + what, "%s gamma=%s: %s is %.17g, by definition %.17g (allowed %.2g) in state %s; %d of %d states differ" % (
                name, gamma, what, G[i], W[i], np.broadcast_to(tol, W.shape)[i], U[:, k].tolist(), bad.any(0).sum() if bad.ndim > 1 else bad.sum(), N),
                {"command": "%s eq %s %s" % (exe, name, gamma), "state": [float(x).hex() for x in U[:, k]]})

    X = U.astype(LD)
    okc = np.array([g["ok"] for g in got])
    want = np.concatenate([np.ones(N, int), want])
    ck.saw((name, gamma, "admissibility"), len(want))
    for k in np.flatnonzero(okc != want)[:1]:
        ck.violation(key + ":ok", "state %s is called %s" % (A[:, k].tolist(), "admissible" if okc[k] else "inadmissible"), {"state": A[:, k].tolist()})
    if gas:
        rho, u, E, p_ = eq.split(X)
        ke = 0.5 * (X[1:-1] ** 2).sum(0) / rho
        un = np.sqrt((u * u).sum(0))
        dp = 32 * EPS * (eq.g - 1) * (np.abs(E) + ke)
        scale = np.stack([np.abs(rho)] + [rho * un] * nd + [np.abs(E) + ke])
        cmp("pressure and velocity", col("extra"), eq.derived(X), np.concatenate([dp[None], 4 * EPS * np.abs(u)]))
        cmp("primitive variables", col("primitive"), eq.to_prim(X), np.concatenate([0 * rho[None], 4 * EPS * np.abs(u), dp[None]]))
        cmp("conserved variables", col("conserved"), X, np.concatenate([0 * rho[None], 8 * EPS * np.abs(X[1:-1]), (64 * EPS * (np.abs(E) + ke))[None]]))
        a = np.sqrt(eq.g * p_ / rho)
        da = a * dp / p_ + 8 * EPS * (a + un)
    else:
        cmp("primitive variables", col("primitive"), X, 0)
        cmp("conserved variables", col("conserved"), X, 0)
    for d in range(gas or 3):
        t = " along " + "xyz"[d]
        F = eq.flux(X, d)
        if gas:
            tol = 32 * EPS * (np.abs(u[d]) * scale) + 0
            tol[1 + d] += dp; tol[-1] += np.abs(u[d]) * dp * 2
        elif name == "buckleyleverett": tol = 32 * EPS * (np.abs(F) + 1)
        else: tol = 8 * EPS * np.abs(F) + 1e-300
        cmp("flux" + t, dcol(d, "flux"), F, tol)
        s = eq.speed(X, d)
        cmp("wave speed" + t, dcol(d, "speed")[0], s, da if gas else 64 * EPS * (np.abs(s) + (name == "buckleyleverett")) + 1e-300)
        if gas or name == "burgers":
            lam = dcol(d, "eigenvalues"); R = dcol(d, "eigenvectors").reshape(eq.nv, eq.nv, N)
            J = jacobian(eq, U, d)
            w = un + a if gas else np.abs(X[0])
            # R diagonalises the Jacobian: J r_k = lambda_k r_k; scaled to comparable units
            S = np.stack([rho] + [rho * w] * nd + [rho * w * w]) if gas else np.ones_like(X)
            res = np.einsum("ij...,jk...->ik...", J, R.astype(LD)) - R * lam[None]
            res = res / S[:, None]
            size = np.abs(R / S[:, None]).max(0)               # each column's size
            M2 = (1 + (un / a) ** 2) if gas else 1
            tolr = (1e-9 * M2 + (dp / p_ * 10 if gas else 0)) * (w + 1e-12) * size
            cmp("eigenvector equation" + t, np.abs(res).max(0), 0 * tolr, tolr)
            if gas:
                Rs = np.moveaxis((R / S[:, None].astype(float)) / size[None].astype(float), 2, 0)
                det = np.abs(np.linalg.det(Rs))
                # the definition's own matrix, scaled alike, says how independent the waves are
                W = eq.R(U, d); Ws = np.moveaxis(W / S[:, None].astype(float) / np.abs(W / S[:, None].astype(float)).max(0)[None], 2, 0)
                dw = np.abs(np.linalg.det(Ws))
                cmp("independent eigenvectors" + t, np.where(det > .1 * dw, 0, 1.), np.zeros(N), 0)
                # scaled so that R R^T is the derivative of the conserved by the entropy variables
                H, E_ = (X[-1] + p_) / rho, X[-1]; u_ = X[1:-1] / rho
                A = np.empty((eq.nv, eq.nv, N), LD)
                A[0, 0] = rho; A[-1, -1] = rho * H * H - a * a * p_ / (eq.g - 1); A[0, -1] = A[-1, 0] = E_
                for q in range(nd):
                    A[0, 1 + q] = A[1 + q, 0] = rho * u_[q]; A[-1, 1 + q] = A[1 + q, -1] = rho * H * u_[q]
                    for r in range(nd): A[1 + q, 1 + r] = rho * u_[q] * u_[r] + (p_ if q == r else 0)
                RR = np.einsum("ik...,jk...->ij...", R.astype(LD), R.astype(LD))
                cmp("scaling of the eigenvectors" + t, RR / rho, A / rho, (S[:, None] * S[None] / rho ** 2) * (256 * EPS + 16 * dp / p_) * (1 + 1 / (eq.g - 1)) ** 2)
                cmp("eigenvalues" + t, np.sort(lam, 0), np.sort(eq.lam(X, d), 0), da[None] + 8 * EPS * w)
            else:
                cmp("eigenvalues" + t, lam, eq.lam(X, d), 0)
    if name == "burgers":
        inside = (U[0] > 1e-3) & (U[0] < 2 - 1e-3)
        v = eq.v(X); g, tg = gradient(eq, U)
        q = 1 / np.abs(X[0]) + 1 / np.abs(2 - X[0])
        cmp("entropy variables", col("entropyvariables"), v, 8 * EPS * q, inside)
        cmp("entropy gradient", col("entropyvariables"), g, 1e-8 * q + tg, inside)
        cmp("entropy potential", col("potential")[0], eq.psi(X, 0), 16 * EPS * (np.abs(v[0]) * X[0] ** 2 + 8), inside)
    if gas:
        v = eq.v(X); g, tg = gradient(eq, U)
        sv = np.stack([(eq.g + np.abs(np.log(p_)) + eq.g * np.abs(np.log(rho))) / (eq.g - 1) + rho * un * un / p_] + [rho * un / p_] * nd + [rho / p_])
        rel = dp / p_ + 32 * EPS
        cmp("entropy variables", col("entropyvariables"), v, rel * (sv + np.stack([1 / (eq.g - 1) + 0 * rho] + [0 * rho] * (nd + 1))))
        cmp("entropy gradient", col("entropyvariables"), g, (1e-8 + rel) * sv * (1 + un * un * rho / p_) + tg)
        cmp("entropy potential", col("potential"), X[1:-1], 0)
    ck.sample({"equation": name, "gamma": gamma, "states": N, "inadmissible": 120, "first": U[:, 0].tolist()})


def body(ck):
    np.seterr(all="ignore")
    ck.bdir = build.ensure(("alsmon",))
    jobs = [(n, None) for n in ("burgers", "linear", "cubic", "buckleyleverett", "euler1", "euler2", "euler3")]
    gs = [1.1, 5 / 3, 2.0, 3.0, 1.01] + [round(ck.rng.uniform(1.05, 3), 4) for _ in range(20 if ck.thorough else 2)]
    jobs += [("euler%d" % d, g) for g in gs for d in (1, 2, 3)]
    import random
    todo = [(n, g, random.Random("%s-%s-%d" % (n, g, ck.seed))) for n, g in jobs]
    todo = [t for t in todo if not ck.only or ck.only in "%s-%s" % t[:2]]
    run.pool(lambda t: one(ck, *t), todo)


if __name__ == "__main__":
    report.main(report.Check("C25", rule="number of (equation, gamma, quantity) classes compared on the state sample; evaluations are compared values"), body)
