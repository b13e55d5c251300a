"""Dimension reduction and spectral metrics: constraints, objective and equivariances observed on the returned variables.

Fisher analysis is compared with the generalised eigenproblem of the scatter matrices computed independently; Wasserstein discriminant
analysis must stay on the Stiefel manifold and lower an independent implementation of its objective; projection-robust transport is
replayed step by step (half Sinkhorn step, Riemannian gradient, QR retraction) and its plan and subspace are checked; entropic Wasserstein
components are compared with the entropic plan of their starting subspace, with the eigenspace they must span, and for monotone descent.
All projections are linear maps with centring, translation equivariant, and leave the data intact.  Spectral-Grassmann costs and metrics
are recomputed entry by entry from their documented formulas and through an exact LP.
"""
import contextlib
import io
import warnings

import numpy as np
from scipy import linalg

import ot
from vt import core, gen, oracles
from vt.checks.c16 import entropic_plan

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("fda", "fda-optimal", "wda", "wda-descent", "projection", "translation", "robust", "robust-replay", "ewca", "ewca-plan", "ewca-span", "ewca-descent",
            "sinkhorn", "eigenvalue-cost", "similarity", "grassmann", "spectral-cost", "spectral-metric", "spectral-invariance", "inputs-intact", "refused")
REQUIRED_EVENTS = ("null-weight", "singular-scatter", "MM", "BCD", "own-start", "trust-region", "normalised", "sinkhorn_log", "complex-phase", "offset", "stopped")


def drm():
    import ot.dr
    return ot.dr


def quiet(f, *a, **k):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f(*a, **k)


def intact(mon, pairs):
    mon.true("inputs-intact", all(np.array_equal(x, y) for x, y in pairs))


def orthonormal(rng, d, k):
    return np.linalg.qr(rng.normal(size=(d, k)))[0]


def labelled(mon, rng):
    nc, d = int(rng.integers(2, 5)), int(rng.integers(2, 6))
    n = int(rng.integers(2 * nc + 1, 30))
    y = rng.permutation(np.concatenate([np.repeat(np.arange(nc), 2), rng.integers(0, nc, n - 2 * nc)]))
    X = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-0.5, 0.5, d) + 2 * rng.normal(size=(nc, d))[y]
    if rng.random() < 0.5:
        mon.event("offset")
        X = X + 5 * rng.normal(size=d)
    return X, rng.choice([-3, 2, 7, 11], nc, replace=False)[y], nc, d


def check_projection(mon, rng, f, P, X, t=1e-9):
    mu = X.mean(0)
    Z = rng.normal(size=(4, X.shape[1])) * np.abs(X).max()
    s = float(np.abs(X).max() + np.abs(Z).max())
    keep = Z.copy()
    mon.close("projection", f(Z), (Z - mu) @ P, t * s, t, "centred linear map")
    mon.close("projection", f(X).mean(0), np.zeros(P.shape[1]), t * s, 0, "training data is centred")
    intact(mon, [(Z, keep)])


@core.family(FAMILIES, 150)
def fisher(mon, rng, idx):
    dr = drm()
    X, y, nc, d = labelled(mon, rng)
    if idx % 5 == 4:
        mon.event("singular-scatter")
        X = np.concatenate([X, X[:, :1] + X[:, 1:2]], 1)
        d += 1
    p, reg = int(rng.integers(1, d + 1)), float(gen.pick(rng, (1e-6, 1e-2, 1))) if idx % 5 == 4 else float(gen.pick(rng, (1e-16, 1e-16, 1e-3, 1)))
    mon.case(X, y, p=p, reg=reg)
    keep = X.copy()
    P, f = quiet(dr.fda, X, y, p=p, reg=reg)
    intact(mon, [(X, keep)])
    q = min(nc - 1, p)
    if not mon.true("fda", P.shape == (d, q) and not np.iscomplexobj(P) and bool(np.isfinite(P).all()), "%s %s" % (P.shape, P.dtype)):
        return
    mon.close("fda", np.linalg.norm(P, axis=0), np.ones(q), 1e-9, 0, "unit columns")
    ks = np.unique(y)
    m = np.stack([keep[y == k].mean(0) for k in ks], 1)
    Cw = sum(np.cov(keep[y == k], rowvar=False) for k in ks) / len(ks) + reg * np.eye(d)
    B = m - m.mean(1, keepdims=True)
    Cb = B @ B.T
    c = float(np.linalg.cond(Cw)) * 1e-7
    if c > 1e-2:
        check_projection(mon, rng, f, P, keep)
        return
    w = linalg.eigh(Cb, Cw, eigvals_only=True)[::-1][:min(nc - 1, d)]
    r = np.sort(np.einsum("ik,ij,jk->k", P, Cb, P) / np.einsum("ik,ij,jk->k", P, Cw, P))[::-1]
    if len(w) <= 1 or w[-1] > 1e-6 * w[0]:
        mon.close("fda-optimal", r, w[:q], (1e-4 + 10 * c) * w[0], 1e-3 + 10 * c, "discriminant ratios")
        v = np.abs(np.stack([linalg.lstsq(Cw, Cb @ P[:, k])[0] for k in range(q)], 1) - P * np.sort(r))
        mon.le("fda-optimal", float(v.max()), (1e-3 + 100 * c) * w[0], "generalised eigenvectors")
    check_projection(mon, rng, f, P, keep)
    t = rng.normal(size=d)
    P2, f2 = quiet(dr.fda, keep + t, y, p=p, reg=reg)
    if c < 1e-3 and (np.diff(np.sort(w)) > 1e-2 * w[0]).all():
        s = np.sign((P * P2).sum(0))
        mon.close("translation", P2 * s, P, 1e-3 + 100 * c, 0)
        mon.close("translation", f2(keep + t) * s, f(keep), (1e-2 + 1000 * c) * np.abs(keep).max(), 0)


def wda_cost(X, y, P, reg, k, R=None):
    ks = np.unique(y)
    Z = [(X[y == c] @ P).astype(float) for c in ks]
    w = b = 0.0
    for i in range(len(ks)):
        for j in range(i, len(ks)):
            M = ((Z[i][:, None] - Z[j][None]) ** 2).sum(-1)
            e = reg * (1 if R is None else R[i, j])
            f, g = np.zeros(len(Z[i])), np.zeros(len(Z[j]))
            for _ in range(k):
                g = -np.log(len(g)) - np.logaddexp.reduce(-M / e + f[:, None], axis=0)
                f = -np.log(len(f)) - np.logaddexp.reduce(-M / e + g[None], axis=1)
            c = float((np.exp(f[:, None] + g[None] - M / e) * M).sum())
            if i == j:
                w += c
            else:
                b += c
    return w / b


@core.family(FAMILIES, 36, weight=5)
def discriminant(mon, rng, idx):
    dr = drm()
    X, y, nc, d = labelled(mon, rng)
    X = X / X.std()
    if d == 1:
        raise core.Skip("no projection to choose")
    # with p = d the objective is constant and Pymanopt divides by the null gradient
    p = int(rng.integers(1, d))
    P0 = orthonormal(rng, d, p)
    k, reg = int(rng.integers(1, 8)), float(gen.pick(rng, (0.5, 1, 5)))
    # exp(-reg * distance) has to be representable
    reg = min(reg, 300 / ((X[:, None] - X[None]) ** 2).sum(-1).max())
    me = gen.pick(rng, ("sinkhorn", "sinkhorn_log"))
    if me == "sinkhorn_log":
        mon.event(me)
    norm = bool(rng.random() < 0.4)
    sol = "TrustRegions" if idx % 6 == 0 else None
    if sol:
        mon.event("trust-region")
    mon.case(X, y, P0, p=p, k=k, reg=reg, me=me, norm=norm, sol=sol)
    keep, P00 = X.copy(), P0.copy()
    kw = dict(p=p, reg=reg, k=k, solver=sol, sinkhorn_method=me, maxiter=3 if sol else 12, normalize=norm, P0=P0)
    P, f = quiet(dr.wda, X, y, **kw)
    intact(mon, [(X, keep), (P0, P00)])
    if not mon.true("wda", P.shape == (d, p) and bool(np.isfinite(P).all())):
        return
    mon.close("wda", P.T @ P, np.eye(p), 1e-9, 0, "orthonormal")
    Xc = keep - keep.mean(0)
    R = None
    if norm:
        mon.event("normalised")
        ks = np.unique(y)
        # mean pairwise distance of the classes on P0; the code stores the offset index
        R = np.array([[((Xc[y == a] @ P0)[:, None] - (Xc[y == b] @ P0)[None]).__pow__(2).sum(-1).mean() for b in ks] for a in ks])
        R = np.array([[R[i, i + j] if i + j < nc else 0.0 for j in range(nc)] for i in range(nc)])
        R2 = np.zeros((nc, nc))
        for i in range(nc):
            for j in range(i, nc):
                R2[i, j] = R[i, j - i]
        R = R2
    J, J0 = wda_cost(Xc, y, P, reg, k, R), wda_cost(Xc, y, P0, reg, k, R)
    mon.le("wda-descent", J - J0, 1e-4 * J0, "objective")
    if p < d and J0 > 1.05 * min(wda_cost(Xc, y, orthonormal(rng, d, p), reg, k, R) for _ in range(4)):
        mon.le("wda-descent", J - J0, -1e-4 * J0, "strict progress")
    check_projection(mon, rng, f, P, keep, 1e-8)
    t = rng.normal(size=d)
    P2, f2 = quiet(dr.wda, keep + t, y, **dict(kw, maxiter=2))
    P1, _ = quiet(dr.wda, keep, y, **dict(kw, maxiter=2))
    if not sol:
        # the data is kept in single precision inside
        mon.close("translation", P2, P1, 1e-2, 0, "wda")
    a, b = gen.weights(rng, 4), gen.weights(rng, 3)
    M = rng.random((4, 3))
    G = getattr(dr, me)(a, b, M, 0.5, 200)
    E = entropic_plan(a, b, M, 0.5)
    mon.close("sinkhorn", G, E, 1e-8, 1e-6, me)
    A, B = rng.normal(size=(4, 2)), rng.normal(size=(3, 2))
    mon.close("sinkhorn", dr.dist(A, B), ((A[:, None] - B[None]) ** 2).sum(-1), 1e-12, 1e-12, "dist")


@core.family(FAMILIES, 120)
def robust(mon, rng, idx):
    dr = drm()
    n, m, d = int(rng.integers(1, 8)), int(rng.integers(1, 8)), int(rng.integers(2, 6))
    k = int(rng.integers(1, d))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d)) + rng.normal(size=d)
    a, b = gen.weights(rng, n, positive=rng.random() < 0.8), gen.weights(rng, m)
    if (a == 0).any():
        mon.event("null-weight")
    U0 = orthonormal(rng, d, k) if rng.random() < 0.7 else None
    seed = int(rng.integers(1000))
    if U0 is not None:
        mon.event("own-start")
    reg, tau = float(10 ** rng.uniform(-0.3, 1)), float(10 ** rng.uniform(-4, -1))
    # exp(-distance / reg) has to be representable
    reg = max(reg, float(((X[:, None] - Y[None]) ** 2).sum(-1).max() / 300))
    it = int(gen.pick(rng, (1, 2, 5, 40)))
    thr = float(gen.pick(rng, (1e-3, 1e-1)))
    mon.case(X, Y, a, b, k=k, reg=reg, tau=tau, it=it, own=U0 is not None)
    keep = [x.copy() for x in (X, Y, a, b)] + [None if U0 is None else U0.copy()]
    kw = dict(U0=U0, reg=reg, k=k, stopThr=thr, maxiter=it, random_state=seed)
    pi, U = quiet(dr.projection_robust_wasserstein, X, Y, a, b, tau, **kw)
    intact(mon, zip(keep[:4], (X, Y, a, b)))
    mon.true("inputs-intact", U0 is None or np.array_equal(U0, keep[4]))
    if not mon.true("robust", pi.shape == (n, m) and U.shape == (d, k) and bool(np.isfinite(pi).all() and np.isfinite(U).all() and (pi >= 0).all())):
        return
    mon.close("robust", U.T @ U, np.eye(k), 1e-10, 0, "orthonormal")
    mon.close("robust", pi.sum(1), a, 1e-12, 0, "source marginal")
    V = U0 if U0 is not None else np.linalg.qr(np.random.RandomState(seed).randn(d, k))[0]
    lu = np.log(np.full(n, 1 / n))
    err, i = 1.0, 0
    with np.errstate(divide="ignore"):
        la, lb = np.log(a), np.log(b)
    D = X[:, None] - Y[None]
    while err > thr and i < it:
        M = ((D @ V) ** 2).sum(-1) / reg
        lv = lb - np.logaddexp.reduce(lu[:, None] - M, axis=0)
        lu = la - np.logaddexp.reduce(lv[None] - M, axis=1)
        R = np.exp(lu[:, None] + lv[None] - M)
        S = np.einsum("ij,ijk,ijl->kl", R, D, D)
        G = 2 / reg * S @ V
        xi = G - V @ (G.T @ V + V.T @ G) / 2
        V = np.linalg.qr(V + tau * xi)[0]
        err = max(reg * np.linalg.norm(xi), np.abs(R.sum(0) - b).sum())
        i += 1
    if i < it:
        mon.event("stopped")
        mon.le("robust", float(np.abs(pi.sum(0) - b).sum()), thr * 1.01, "target marginal at convergence")
    if not 0.99 < err / thr < 1.01:
        mon.close("robust-replay", pi, R, 1e-8, 1e-5, "plan after %d steps" % i)
        mon.close("robust-replay", U @ U.T, V @ V.T, 1e-7, 0, "subspace")
    t = 3 * rng.normal(size=d)
    p2, U2 = quiet(dr.projection_robust_wasserstein, X + t, Y + t, a, b, tau, **kw)
    if not 0.99 < err / thr < 1.01:
        mon.close("translation", p2, pi, 1e-6, 1e-4, "robust")
        mon.close("translation", U2 @ U2.T, U @ U.T, 1e-5, 0, "robust")
    mon.raises("refused", lambda: dr.projection_robust_wasserstein(X, Y, a, b, tau, k=d), AssertionError, "no reduction")


def ewca_loss(X, U, reg):
    """entropic cost of the whole data to its projection, through its own plan"""
    M = ((X[:, None] - (X @ U @ U.T)[None]) ** 2).sum(-1)
    n = len(X)
    P = entropic_plan(np.full(n, 1 / n), np.full(n, 1 / n), M, reg, it=3000)
    return (None, None) if P is None else (float((M * P).sum() + reg * (P * (np.log(P) - 1)).sum()), P)


@core.family(FAMILIES, 60, weight=3)
def components(mon, rng, idx):
    dr = drm()
    n, d = int(rng.integers(3, 11)), int(rng.integers(2, 6))
    k = int(rng.integers(1, min(n, d)))
    X = rng.normal(size=(n, d)) * np.linspace(1, 2.5, d) + rng.normal(size=d) * rng.integers(0, 5)
    reg = float(X.var(0).sum() * 10 ** rng.uniform(-0.4, 0.7))
    me = ("BCD", "MM")[idx % 2]
    mon.event(me)
    sk = gen.pick(rng, ("sinkhorn", "sinkhorn_log"))
    U0 = orthonormal(rng, d, k) if rng.random() < 0.6 else None
    mon.case(X, k=k, reg=reg, me=me, sk=sk, own=U0 is not None)
    keep = X.copy()
    kw = dict(reg=reg, k=k, method=me, sinkhorn_method=sk, maxiter_sink=3000)
    pi, U = quiet(dr.ewca, X, U0=U0, maxiter=1, **kw)
    intact(mon, [(X, keep)])
    Xc = keep - keep.mean(0)
    S0 = U0 if U0 is not None else np.linalg.svd(Xc)[2][:k].T
    if not mon.true("ewca", pi.shape == (n, n) and U.shape == (d, k) and bool(np.isfinite(pi).all() and (pi >= 0).all())):
        return
    mon.close("ewca", U.T @ U, np.eye(k), 1e-10, 0, "orthonormal")
    L0, E = ewca_loss(Xc, S0, reg)
    if E is None:
        raise core.Skip
    mon.close("ewca-plan", pi, E, 1e-5, 1e-3, "entropic plan of the starting subspace")
    Ps = (pi + pi.T) / 2
    S = Xc.T @ (2 * Ps - np.eye(n) / n) @ Xc
    w = np.linalg.eigvalsh(S)[::-1]
    if me == "BCD":
        mon.close("ewca-span", np.trace(U.T @ S @ U), w[:k].sum(), 1e-9 * np.abs(w).max(), 0, "leading eigenspace")
        mon.close("ewca-span", S @ U, U @ (U.T @ S @ U), 1e-8 * np.abs(w).max(), 0, "invariant subspace")
    else:
        mon.le("ewca-span", float(np.trace(S0.T @ S @ S0) - np.trace(U.T @ S @ U)), 1e-8 * np.abs(w).max() * d, "majorisation does not lower the variance")
    # each further iteration lowers the regularised transport cost
    U3 = quiet(dr.ewca, X, U0=U0, maxiter=3, **kw)[1]
    U9 = quiet(dr.ewca, X, U0=U0, maxiter=30, **kw)[1]
    Ls = [L0] + [ewca_loss(Xc, V, reg)[0] for V in (U, U3, U9)]
    if None not in Ls:
        mon.le("ewca-descent", max(np.diff(Ls)), 1e-5 * (1 + np.abs(L0)), "objective %s" % Ls)
    mon.close("ewca", U9.T @ U9, np.eye(k), 1e-10, 0)
    t = 2 * rng.normal(size=d)
    p2, U2 = quiet(dr.ewca, X + t, U0=U0, maxiter=1, **kw)
    mon.close("translation", p2, pi, 1e-6, 1e-4, "ewca")
    if len(w) == k or w[k - 1] - w[k] > 1e-3 * np.abs(w).max():
        mon.close("translation", U2 @ U2.T, U @ U.T, 1e-4, 0, "ewca")
    mon.raises("refused", lambda: quiet(dr.ewca, X, method="foo", k=k), ValueError)


GM = ("chordal", "geodesic", "procrustes", "martin")


def cn(rng, *s):
    return rng.normal(size=s) + 1j * rng.normal(size=s)


@core.family(FAMILIES, 300)
def spectral(mon, rng, idx):
    from ot import sgot
    L, ns, nt = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    cplx = rng.random() < 0.7
    dr = (lambda *s: cn(rng, *s)) if cplx else (lambda *s: rng.normal(size=s))
    Ds, Dt, Rs, Ls, Rt, Lt = dr(ns), dr(nt), dr(L, ns), dr(L, ns), dr(L, nt), dr(L, nt)
    same = rng.random() < 0.25
    if same:
        nt, Dt, Rt, Lt = ns, Ds.copy(), Rs.copy(), Ls.copy()
    if rng.random() < 0.1:
        Rs[:, 0] = 0
    g = GM[idx % 4]
    eta, p, q, r = float(gen.pick(rng, (0, 0.3, 0.5, 1))), float(gen.pick(rng, (1, 2, 3))), float(gen.pick(rng, (1, 2, 0.5))), float(gen.pick(rng, (1, 2)))
    sc = gen.pick(rng, (None, (1.0, 0.5), [2.0, 0.0], np.array([0.3, 1.0])))
    Ws, Wt = (gen.weights(rng, ns), gen.weights(rng, nt)) if rng.random() < 0.7 else (None, None)
    mon.case(Rs, Rt, g=g, eta=eta, p=p, q=q, r=r, sc=str(sc), w=Ws is not None, cplx=cplx)
    arrs = (Ds, Rs, Ls, Dt, Rt, Lt)
    keep = [x.copy() for x in arrs]
    al, be = (1.0, 1.0) if sc is None else (sc[0], sc[1])
    z = lambda D: al * np.real(D) + 1j * be * np.imag(D)
    Cl = np.abs(z(Ds)[:, None] - z(Dt)[None]) ** q
    mon.close("eigenvalue-cost", sgot.eigenvalue_cost_matrix(Ds, Dt, q=q, eigen_scaling=sc), Cl, 1e-9 if q < 1 else 1e-12, 1e-9)
    nm = lambda A: A / np.maximum(np.linalg.norm(A, axis=0), 1e-12)
    de = np.array([[abs(np.vdot(nm(Rs)[:, i], nm(Rt)[:, j]) * np.vdot(nm(Ls)[:, i], nm(Lt)[:, j])) for j in range(nt)] for i in range(ns)])
    got = sgot._delta_matrix_1d(Rs, Ls, Rt, Lt)
    mon.close("similarity", got, np.minimum(de, 1), 1e-12, 0)
    mon.true("similarity", bool((got >= 0).all() and (got <= 1).all()))
    de = np.clip(got, 0, 1)
    d2 = {"chordal": 1 - de ** 2, "geodesic": np.arccos(de) ** 2, "procrustes": 2 * (1 - de), "martin": -np.log(np.maximum(de ** 2, 1e-12))}[g]
    Cg = np.maximum(d2, 0) ** (q / 2)
    mon.close("grassmann", sgot._grassmann_distance_squared(de, grassmann_metric=g, q=q), Cg, 1e-12, 1e-9, g)
    want = (eta * Cl + (1 - eta) * Cg) ** (p / 2)
    kw = dict(eta=eta, p=p, q=q, grassmann_metric=g, eigen_scaling=sc)
    C = sgot.sgot_cost_matrix(*arrs, **kw)
    mon.close("spectral-cost", C, want, 1e-9 if q < 1 or p < 2 else 1e-11, 1e-9, g)
    a, b = (Ws, Wt) if Ws is not None else (np.full(ns, 1 / ns), np.full(nt, 1 / nt))
    v = float(sgot.sgot_metric(*arrs, r=r, Ws=None if Ws is None else 3 * Ws, Wt=Wt, **kw))
    o = max(oracles.lp_transport(a, b, np.asarray(C))[0], 0)
    mon.close("spectral-metric", v ** (r * p), o, 1e-10, 1e-9, "%s against the exact LP" % g)
    w = float(sgot.sgot_metric(Dt, Rt, Lt, Ds, Rs, Ls, r=r, Ws=Wt, Wt=Ws, **kw))
    # rounding of similarities close to one is amplified by the roots
    t = 1e-9 + 8 * 1e-14 ** min(q / 2, q * p / 4, 1) * (1 + np.abs(want).max())
    mon.close("spectral-metric", w ** (r * p), v ** (r * p), t, 1e-8, "symmetry")
    intact(mon, zip(keep, arrs))
    # eigenvectors only matter up to scale and phase, atoms up to order
    ph = lambda n: (np.exp(2j * np.pi * rng.random(n)) if cplx else rng.choice([-1.0, 1.0], n)) * 10.0 ** rng.uniform(-2, 2, n)
    if cplx:
        mon.event("complex-phase")
    o = rng.permutation(ns)
    v2 = float(sgot.sgot_metric(Ds[o], (Rs * ph(ns))[:, o], (Ls * ph(ns))[:, o], Dt, Rt * ph(nt), Lt * ph(nt), r=r, Ws=None if Ws is None else Ws[o], Wt=Wt, **kw))
    mon.close("spectral-invariance", v2 ** (r * p), v ** (r * p), t if g != "martin" or (de > 1e-5).all() else np.inf, 1e-6, g)
    k = idx % 6
    bad = np.zeros((2, 2))
    mon.raises("refused", (lambda: sgot.sgot_cost_matrix(Ds[:, None], *arrs[1:]), lambda: sgot.sgot_cost_matrix(Ds, Rs, Ls[:, :0], *arrs[3:]),
                           lambda: sgot.sgot_cost_matrix(np.concatenate([Ds, Ds]), *arrs[1:]), lambda: sgot.sgot_cost_matrix(*arrs, grassmann_metric="foo"),
                           lambda: sgot._grassmann_distance_squared(bad + 2), lambda: sgot.sgot_metric(*arrs[:4], Rt[:, :0], Lt))[k], ValueError, "case %d" % k)
