"""Entropic barycenters.  The oracle is the KKT system of the documented problem, evaluated
with an independent log-domain Sinkhorn of the check: for the returned q, the potentials v_k
of the plans (a_k, q) must satisfy sum_k w_k log v_k = const (plain) or = log c with (q, q)
coupled by c K c (debiased).  The problem is convex, so this identifies the minimiser; every
method (plain, log, stabilised at any absorption threshold, separable convolutions) is judged
alone.  Order, scale and method invariances follow as cross-checks.  Free-support iterates must
descend and end at a fixed point, class proportions must be recovered on separated classes."""

import warnings

import numpy as np
from scipy.special import logsumexp

import ot
from vt import core, gen

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("bary-kkt", "debiased-kkt", "conv-kkt", "conv-debiased-kkt", "free-descent", "free-fixed-point",
            "jcpot-proportions", "unmix-mass")
REQUIRED_EVENTS = ("converged", "absorbed-regime")


def run(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            r = f(*a, **k)
    txt = " | ".join(str(x.message) for x in w)
    return r, ("converge" in txt or "umerical" in txt)


def log_sinkhorn(a, q, C, iters=4000):
    """log v of the plan diag(u) exp(-C) diag(v) with marginals (a, q); None if not converged."""
    with np.errstate(divide="ignore"):
        la, lq = np.log(a), np.log(q)
    g = np.zeros(len(q))
    I = np.isfinite(la)
    for i in range(iters):
        f = la[I] - logsumexp(g[None] - C[I], axis=1)
        new = lq - logsumexp(f[:, None] - C[I], axis=0)
        d = np.ptp(new - g)
        g = new
        if d < 1e-12:
            return g
    return g if d < 1e-9 else None


def kkt(A, w, q, C, debiased=False):
    tot = np.zeros(len(q))
    for k in range(A.shape[1]):
        if w[k] == 0:
            continue
        g = log_sinkhorn(A[:, k], q, C)
        if g is None:
            return None
        tot += w[k] * g
    if debiased:
        c = np.zeros(len(q))
        lq = np.log(q)
        for _ in range(5000):
            n = 0.5 * (c + lq - logsumexp(c[:, None] - C, axis=0))
            d = np.abs(n - c).max()
            c = n
            if d < 1e-13:
                break
        tot -= c
    return float(np.ptp(tot))


def hists(rng, n, k):
    kinds = ("uniform", "dirichlet", "skewed", "dyadic", "sparse")
    return np.stack([gen.weights(rng, n, gen.pick(rng, kinds)) for _ in range(k)], 1)


def mix(rng, k):
    c = rng.random()
    if c < 0.3 or k == 1:
        return None, np.ones(k) / k
    w = rng.dirichlet(np.ones(k))
    if c < 0.5:
        w = np.r_[0.7, np.full(k - 1, 0.3 / (k - 1))]
    return w, w


def grid_cost(rng, n):
    c = rng.random()
    if c < 0.5:
        x = np.linspace(0, 1, n)[:, None]
        M = ot.dist(x, x)
    else:
        X = rng.normal(size=(n, 2))
        M = ot.dist(X, X, gen.pick(rng, ("sqeuclidean", "euclidean")))
    return M


@core.family(FAMILIES, 450, weight=2)
def plain(mon, rng, idx):
    n, k = int(rng.integers(2, 10)), int(rng.integers(1, 5))
    A, (w, ww) = hists(rng, n, k), mix(rng, k)
    M = grid_cost(rng, n)
    if rng.random() < 0.15:
        M = M + 0.3 * rng.random((n, n))  # not symmetric: rows belong to the inputs
    reg = float(np.ptp(M)) * float(10 ** rng.uniform(-1.3, 0.3)) + 1e-6
    method = gen.pick(rng, ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"))
    kw = {}
    if method == "sinkhorn_stabilized":
        kw["tau"] = float(gen.pick(rng, (1e10, 1e3, 30.0, 5.0)))
        if kw["tau"] < 100:
            mon.event("absorbed-regime")
    mon.case(A, M, ww, n=n, k=k, reg=reg, method=method, tau=kw.get("tau", 0.0), nontrivial=k > 1)
    A0, M0 = A.copy(), M.copy()
    if w is not None:
        w0 = w.copy()
    (q, log), bad = run(ot.bregman.barycenter, A, M, reg, weights=w, method=method, numItermax=8000, stopThr=1e-11, log=True, **kw)
    mon.true("inputs-intact", np.array_equal(A, A0) and np.array_equal(M, M0) and (w is None or np.array_equal(w, w0)))
    mon.true("shape", q.shape == (n,))
    mon.event("warned" if bad else "converged")
    if bad:
        return
    mon.event("converged-" + method)
    mon.le("non-negative", -q.min(), 0.0)
    mon.close("mass", q.sum(), 1.0, 1e-7)
    r = kkt(A, ww, q, M / reg) if q.min() > 0 else None
    if r is not None:
        mon.le("bary-kkt", r, 1e-5)
    q2, _ = run(ot.bregman.barycenter, A, M, reg, weights=w, method=method, numItermax=8000, stopThr=1e-11, **kw)
    mon.close("log-call", q2, q, 1e-13)
    p = rng.permutation(k)
    q3, b3 = run(ot.bregman.barycenter, A[:, p].copy(), M, reg, weights=None if w is None else w[p].copy(), method=method, numItermax=8000, stopThr=1e-11, **kw)
    if not b3:
        mon.close("order", q3, q, 1e-6)
    if idx % 3 == 0:
        z, bz = run(ot.bregman.barycenter, A, M * 4.0, reg * 4.0, weights=w, method=method, numItermax=8000, stopThr=1e-11, **kw)
        if not bz:
            mon.close("scale", z, q, 1e-7)
        e = (w if w is not None else ww)
        d, bd = run(ot.bregman.barycenter, np.c_[A, A], M, reg, weights=np.r_[e, e] / 2, method=method, numItermax=8000, stopThr=1e-11, **kw)
        if not bd:
            mon.close("duplicate", d, q, 1e-6)
    if idx % 3 == 1:
        m2 = gen.pick(rng, [m for m in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized") if m != method])
        z, bz = run(ot.bregman.barycenter, A, M, reg, weights=w, method=m2, numItermax=8000, stopThr=1e-11)
        if not bz:
            mon.close("methods-agree", z, q, 1e-6)


def limit(f, A, reg, *a, **k):
    """Iterate past the solver's own stopping rule (for one histogram, or on the debiasing
    term, it sees no error); the limit, or None when the iterates still move."""
    q, _ = run(f, A, *a, reg, numItermax=400, stopThr=-1.0, **k)
    r, _ = run(f, A, *a, reg, numItermax=600, stopThr=-1.0, **k)
    return (r, True) if np.abs(q - r).max() < 1e-9 else (r, False)


@core.family(FAMILIES, 60, weight=2)
def debiased(mon, rng, idx):
    n, k = int(rng.integers(2, 8)), int(rng.integers(1, 4))
    A, (w, ww) = hists(rng, n, k), mix(rng, k)
    A = (A + 0.05) / (A + 0.05).sum(0)
    M = grid_cost(rng, n)
    reg = float(np.ptp(M)) * float(10 ** rng.uniform(-0.9, -0.2)) + 1e-6
    method = gen.pick(rng, ("sinkhorn", "sinkhorn_log"))
    mon.case(A, M, ww, n=n, k=k, reg=reg, method=method, nontrivial=k > 1)
    f = lambda A, M, reg, **kw: ot.bregman.barycenter_debiased(A, M, reg, **kw)
    go = lambda A, w, m: limit(lambda A, reg, **kw: f(A, M, reg, **kw), A, reg, weights=w, method=m)
    q, ok = go(A, w, method)
    mon.event("converged" if ok else "warned")
    if not ok:
        return
    mon.le("debiased-non-negative", -q.min(), 0.0)
    mon.close("debiased-mass", q.sum(), 1.0, 1e-6)
    if q.min() > 1e-6:
        r = kkt(A, ww, q, M / reg, True)
        if r is not None:
            mon.le("debiased-kkt", r, 1e-4)
    m2 = "sinkhorn_log" if method == "sinkhorn" else "sinkhorn"
    z, ok = go(A, w, m2)
    if ok:
        mon.close("debiased-methods-agree", z, q, 1e-6)
    p = rng.permutation(k)
    z, ok = go(A[:, p].copy(), None if w is None else w[p].copy(), method)
    if ok:
        mon.close("debiased-order", z, q, 1e-7)
    if k == 1:  # the debiased barycenter of one measure is that measure
        mon.close("debiased-single", q, A[:, 0], 1e-6)


@core.family(FAMILIES, 100, weight=2)
def convolutional(mon, rng, idx):
    k, wd, ht = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(2, 6))
    A, (w, ww) = hists(rng, wd * ht, k), mix(rng, k)
    deb = bool(rng.random() < 0.4)
    if deb:
        A = (A + 0.05) / (A + 0.05).sum(0)
    imgs = np.ascontiguousarray(A.T.reshape(k, wd, ht))
    t1, t2 = np.linspace(0, 1, wd), np.linspace(0, 1, ht)
    M = ((t1[:, None, None, None] - t1[None, None, :, None]) ** 2 + (t2[None, :, None, None] - t2[None, None, None, :]) ** 2).reshape(wd * ht, wd * ht)
    reg = float(10 ** rng.uniform(-0.8, 0.1))
    method = gen.pick(rng, ("sinkhorn", "sinkhorn_log"))
    f = ot.bregman.convolutional_barycenter2d_debiased if deb else ot.bregman.convolutional_barycenter2d
    thr = 1e-11

    def go(imgs, reg, **kw):
        return limit(f, imgs, reg, **kw) if deb else run(f, imgs, reg, numItermax=3000, stopThr=thr, **kw)

    mon.case(imgs, ww, w=wd, h=ht, k=k, reg=reg, method=method, debiased=deb, nontrivial=k > 1)
    q, bad = go(imgs, reg, weights=w, method=method)
    bad = bad != deb
    mon.true("conv-shape", q.shape == (wd, ht))
    mon.event("warned" if bad else "converged")
    if bad:
        return
    mon.le("conv-non-negative", -q.min(), 0.0)
    pre = "conv-debiased" if deb else "conv"
    v = q.ravel()
    if v.min() > (1e-6 if deb else 1e-12):
        r = kkt(A, ww, v, M / reg, deb)
        if r is not None:
            mon.le(pre + "-kkt", r, 1e-4 if deb else 1e-5)
            mon.close(pre + "-mass", v.sum(), 1.0, 1e-6 if deb else 1e-7)
    qt, bt = go(imgs.transpose(0, 2, 1).copy(), reg, weights=w, method=method)
    if bt == deb:
        mon.close(pre + "-transpose", qt.T, q, 1e-5 if deb else 1e-7)
    qf, bf = go(imgs[:, ::-1].copy(), reg, weights=w, method=method)
    if bf == deb:
        mon.close(pre + "-flip", qf[::-1], q, 1e-5 if deb else 1e-7)
    if not deb:
        g, bg = run(ot.bregman.barycenter, A, M, reg, weights=w, numItermax=8000, stopThr=1e-11)
        if not bg:
            mon.close("conv=dense", v, g, 1e-6)


@core.family(FAMILIES, 120)
def free_support(mon, rng, idx):
    N, d, kk = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 6))
    Y = [rng.normal(size=(int(rng.integers(1, 7)), d)) for _ in range(N)]
    P = [gen.weights(rng, len(y), gen.pick(rng, ("uniform", "dirichlet"))) for y in Y]
    X0 = rng.normal(size=(kk, d))
    b = None if rng.random() < 0.5 else rng.dirichlet(np.ones(kk) * 3)
    w = None if rng.random() < 0.5 else rng.dirichlet(np.ones(N) * 2)
    reg = float(10 ** rng.uniform(-0.3, 0.7))
    mon.case(X0, *Y, N=N, k=kk, d=d, reg=reg)
    kw = dict(b=b, weights=w, stopThr=1e-14)
    keep = X0.copy()
    bb, ww = (np.ones(kk) / kk if b is None else b), (np.ones(N) / N if w is None else w)

    def F(X):
        v = 0.0
        for y, p, wi in zip(Y, P, ww):
            C = ot.dist(X, y)
            T = ot.sinkhorn(bb, p, C, reg, method="sinkhorn_log", stopThr=1e-12, warn=False)
            v += wi * ((T * C).sum() + reg * (T[T > 0] * np.log(T[T > 0])).sum())
        return v

    vals = [F(X0)]
    for it in (1, 2, 4):
        (X, log), bad = run(ot.bregman.free_support_sinkhorn_barycenter, Y, P, X0, reg, numItermax=it, log=True, **kw)
        vals.append(F(X))
        mon.le("free-log-length", len(log["displacement_square_norms"]), it)
    mon.true("free-inputs-intact", np.array_equal(X0, keep))
    for u, v in zip(vals, vals[1:]):
        mon.le("free-descent", v - u, 1e-6 * (1 + abs(u)))
    (X, log), bad = run(ot.bregman.free_support_sinkhorn_barycenter, Y, P, X0, reg, numItermax=300, log=True, **kw)
    D = log["displacement_square_norms"]
    if D[-1] <= 1e-14 and not bad:
        mon.event("converged")
        T = np.zeros_like(X)
        for y, p, wi in zip(Y, P, ww):
            G = ot.sinkhorn(bb, p, ot.dist(X, y), reg, method="sinkhorn_log", stopThr=1e-12, warn=False)
            T += wi * G @ y / bb[:, None]
        mon.close("free-fixed-point", X, T, 1e-5)
    q = rng.permutation(N)
    Z, bz = run(ot.bregman.free_support_sinkhorn_barycenter, [Y[i] for i in q], [P[i] for i in q], X0, reg, numItermax=5,
                b=b, weights=None if w is None else w[q], stopThr=1e-14)
    X5, b5 = run(ot.bregman.free_support_sinkhorn_barycenter, Y, P, X0, reg, numItermax=5, **kw)
    mon.close("free-order", Z, X5, 1e-6)
    t = rng.normal(size=d)
    Z, bz = run(ot.bregman.free_support_sinkhorn_barycenter, [y + t for y in Y], P, X0 + t, reg, numItermax=5, **kw)
    mon.close("free-translation", Z, X5 + t, 1e-6)


@core.family(FAMILIES, 80)
def jcpot(mon, rng, idx):
    C, D = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    cent = 12.0 * np.eye(C, max(C, 2)) * np.arange(1, C + 1)[:, None]
    Xs, Ys = [], []
    for _ in range(D):
        y = np.r_[np.arange(C), rng.integers(0, C, int(rng.integers(3, 9)))]
        y = rng.permutation(y)
        Xs.append(cent[y] + 0.3 * rng.normal(size=(len(y), cent.shape[1])))
        Ys.append(y)
    yt = np.r_[np.arange(C), rng.integers(0, C, int(rng.integers(3, 12)))]
    Xt = cent[yt] + 0.3 * rng.normal(size=(len(yt), cent.shape[1]))
    prop = np.bincount(yt, minlength=C) / len(yt)
    shift = int(rng.integers(0, 3))
    ys = [y + shift for y in Ys]
    keep = [y.copy() for y in ys]
    reg = float(10 ** rng.uniform(0, 0.7))
    mon.case(Xt, *Xs, C=C, D=D, shift=shift, reg=reg)
    (p, log), bad = run(ot.bregman.jcpot_barycenter, Xs, ys, Xt, reg, numItermax=2000, stopThr=1e-10, log=True)
    mon.true("jcpot-inputs-intact", all(np.array_equal(u, v) for u, v in zip(ys, keep)))
    mon.event("warned" if bad else "converged")
    if bad:
        return
    mon.close("jcpot-mass", p.sum(), 1.0, 1e-12)
    mon.le("jcpot-nonneg", -p.min(), 0.0)
    mon.close("jcpot-proportions", p, prop, 2e-3)
    for d in range(D):
        mon.close("jcpot-plan-rows", log["D1"][d] @ log["gamma"][d].sum(1), p, 1e-6)
    q = rng.permutation(D)
    p2, b2 = run(ot.bregman.jcpot_barycenter, [Xs[i] for i in q], [ys[i] for i in q], Xt, reg, numItermax=2000, stopThr=1e-10)
    if not b2:
        mon.close("jcpot-order", p2, p, 1e-7)
    p3, b3 = run(ot.bregman.jcpot_barycenter, Xs, [y + 2 for y in Ys], Xt, reg, numItermax=2000, stopThr=1e-10)
    if not b3:
        mon.close("jcpot-label-shift", p3, p, 1e-10)


@core.family(FAMILIES, 120)
def unmixing(mon, rng, idx):
    n, k = int(rng.integers(6, 14)), int(rng.integers(2, 4))
    x = np.arange(n)[:, None] / n
    D = np.stack([ot.datasets.make_1D_gauss(n, (j + 0.5) * n / k, n / k / 5) for j in range(k)], 1)
    h = rng.dirichlet(np.ones(k) * 2)
    a = D @ h
    M = ot.dist(x, x)
    M /= M.max()
    M0 = 1 - np.eye(k)
    h0 = rng.dirichlet(np.ones(k) * 5)
    alpha = float(rng.uniform(0.02, 0.98))
    reg, reg0 = 0.02, 0.1
    mon.case(a, D, h0, n=n, k=k, alpha=alpha)
    kw = dict(numItermax=5000, stopThr=1e-10)
    (r, log), bad = run(ot.bregman.unmix, a, D, M, M0, h0, reg, reg0, alpha, log=True, **kw)
    mon.event("warned" if bad else "converged")
    if bad:
        return
    mon.le("unmix-nonneg", -r.min(), 0.0)
    mon.close("unmix-mass", r.sum(), 1.0, 1e-6)
    q = rng.permutation(k)
    z, bz = run(ot.bregman.unmix, a, D[:, q].copy(), M, M0, h0[q].copy(), reg, reg0, alpha, **kw)
    if not bz:
        mon.close("unmix-order", z, r[q], 1e-7)
    # documented role of alpha: 0 trusts the data, 1 trusts the prior
    lo, b1 = run(ot.bregman.unmix, a, D, M, M0, h0, reg, reg0, 0.01, **kw)
    hi, b2 = run(ot.bregman.unmix, a, D, M, M0, h0, reg, reg0, 0.99, numItermax=20000, stopThr=1e-10)
    mon.le("unmix-extremes", min(np.abs(lo - h0).max(), np.abs(hi - h0).max()), 0.05)
    if not b1 and not b2 and np.abs(h - h0).max() > 0.05:
        mon.le("prior-trust", np.abs(hi - h0).max() - np.abs(lo - h0).max(), 0.0)
    # shifted by alpha, never outside the segment between the two extremes
    u, l = np.maximum(lo, hi), np.minimum(lo, hi)
    if k == 2 and not b1 and not b2:
        mon.le("unmix-between", np.maximum(r - u, l - r).max() if 0.01 < alpha < 0.99 else 0.0, 1e-3)
