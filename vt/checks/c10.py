"""Sample-based entropic OT.  The lazily batched solver must return potentials whose plan is
certified by the KKT conditions of the matrix problem (exact column marginal, row marginal
within the stopping threshold, Gibbs form by construction), give the same potentials for every
batch size (1, dividing, with remainder, larger than the data, rectangular), and a loss equal
to <M, plan>.  The eager solver must equal ot.sinkhorn on the same matrix bit for bit, the
divergence must equal its three-term formula, be symmetric, non-negative, zero on equal
measures.  Nystroem plans are certified against their own low-rank kernel and, when every
point is an anchor, against the full kernel."""

import warnings

import numpy as np

import ot
from ot.bregman import (empirical_sinkhorn, empirical_sinkhorn2, empirical_sinkhorn_divergence,
                        empirical_sinkhorn_nystroem, empirical_sinkhorn_nystroem2)
from vt import core, gen

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("lazy-row-marginal", "lazy-col-marginal", "lazy-loss", "batch-invariance", "lazy-plan", "eager-plan",
            "divergence-formula", "nys-loss", "nys-full-kernel")
REQUIRED_EVENTS = ("converged", "remainder", "tuple-batch")

METRICS = ("sqeuclidean", "euclidean", "cityblock", "chebyshev")


def run(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            r = f(*a, **k)
    txt = " | ".join(str(x.message) for x in w)
    return r, ("converge" in txt or "umerical" in txt)


def samples(rng, hi=18, d=None):
    n, m, d = int(rng.integers(1, hi)), int(rng.integers(1, hi)), d or int(rng.integers(1, 4))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d)) * float(10 ** rng.uniform(-0.5, 0.5)) + rng.normal(size=d)
    if rng.random() < 0.3:
        X, Y = np.round(X), np.round(Y)
    a = b = None
    if rng.random() < 0.6:
        a = gen.weights(rng, n, gen.pick(rng, ("uniform", "dirichlet", "skewed", "dyadic")))
    if rng.random() < 0.6:
        b = gen.weights(rng, m, gen.pick(rng, ("uniform", "dirichlet", "skewed", "dyadic")))
    return X, Y, a, b


def scale(M):
    return max(float(np.ptp(M)), float(np.abs(M).max()) / 50, 1e-3)


@core.family(FAMILIES, 500)
def lazy(mon, rng, idx):
    X, Y, a, b = samples(rng)
    n, m = len(X), len(Y)
    metric = gen.pick(rng, METRICS)
    M = ot.dist(X, Y, metric)
    reg = scale(M) * float(10 ** rng.uniform(-1.2, 0.7))
    bs = gen.pick(rng, (1, 2, 3, 5, 7, n, m, n + 1, n + m, 100, (2, 3), (n, 1), (4, m), (1, 200)))
    thr = float(gen.pick(rng, (1e-9, 1e-6, 1e-3)))
    ws = None
    if rng.random() < 0.3:
        ws = (rng.normal(size=n), rng.normal(size=m))
    mon.case(X, Y, a, b, M, n=n, m=m, reg=reg, metric=metric, bs=str(bs), thr=thr)
    kw = dict(metric=metric, isLazy=True, numIterMax=3000, stopThr=thr, warmstart=ws)
    keep = X.copy(), Y.copy(), None if ws is None else (ws[0].copy(), ws[1].copy())
    (f, g, log), bad = run(empirical_sinkhorn, X, Y, reg, a, b, batchSize=bs, log=True, **kw)
    mon.true("lazy-inputs-intact", np.array_equal(X, keep[0]) and np.array_equal(Y, keep[1]) and
             (ws is None or (np.array_equal(ws[0], keep[2][0]) and np.array_equal(ws[1], keep[2][1]))))
    aa, bb = (ot.unif(n) if a is None else a), (ot.unif(m) if b is None else b)
    P = np.exp(f[:, None] + g[None] - M / reg)
    mon.close("lazy-col-marginal", P.sum(0), bb, 1e-9)
    mon.event("warned" if bad else "converged")
    err = np.abs(P.sum(1) - aa).sum()
    if not bad:
        mon.le("lazy-row-marginal", err, thr * 1.001 + 1e-10)
        mon.close("lazy-err", float(log["err"][-1]), err, 1e-10)
    b0 = bs if isinstance(bs, int) else bs[0]
    if isinstance(bs, tuple):
        mon.event("tuple-batch")
    if n % b0:
        mon.event("remainder")
    mon.close("lazy-log", np.r_[log["u"], log["v"]], np.r_[f, g], 0)
    T = log["lazy_plan"]
    mon.true("lazy-plan-shape", tuple(T.shape) == (n, m))
    mon.close("lazy-plan", T[:], P, 1e-10)
    i, j = int(rng.integers(n)), int(rng.integers(m))
    mon.close("lazy-plan-entry", np.ravel(T[i, j]), P[i, j].ravel(), 1e-10)
    mon.close("lazy-plan-slice", T[i:, :j + 1], P[i:, :j + 1], 1e-10)
    mon.close("lazy-plan-row", np.ravel(T[i]), P[i], 1e-10)
    (v, l2), _ = run(empirical_sinkhorn2, X, Y, reg, a, b, batchSize=bs, log=True, **kw)
    mon.close("lazy-loss", float(v), float((M * P).sum()), 1e-9 * (1 + np.abs(M).max()))
    v2, _ = run(empirical_sinkhorn2, X, Y, reg, a, b, batchSize=bs, **kw)
    mon.close("lazy-loss", float(v2), float(v), 1e-10 * (1 + np.abs(M).max()))
    bs2 = int(rng.integers(1, n + m + 2))
    (f2, g2), bad2 = run(empirical_sinkhorn, X, Y, reg, a, b, batchSize=bs2, **kw)
    mon.true("batch-warn", bad2 == bad or err < 1.1 * thr)
    if not bad and not bad2:  # the same number of iterations up to rounding at the threshold
        P2 = np.exp(f2[:, None] + g2[None] - M / reg)
        mon.close("batch-invariance", P2, P, 1e-9 if err < 0.9 * thr else 10 * thr)
        Q, badm = run(ot.sinkhorn, aa, bb, M, reg, method="sinkhorn_log", stopThr=1e-12, numItermax=5000)
        if not badm and thr <= 1e-9:
            mon.close("lazy=matrix", P, Q, 1e-6)


@core.family(FAMILIES, 350)
def eager(mon, rng, idx):
    X, Y, a, b = samples(rng)
    n, m = len(X), len(Y)
    metric = gen.pick(rng, METRICS)
    M = ot.dist(X, Y, metric)
    reg = scale(M) * float(10 ** rng.uniform(-1.2, 0.7))
    method = gen.pick(rng, (None, "sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"))
    kw = dict(stopThr=float(gen.pick(rng, (1e-9, 1e-4))))
    ex = {} if method is None else dict(method=method)
    cap = int(gen.pick(rng, (5, 2000)))
    warn = bool(rng.random() < 0.5)
    ws = None
    if rng.random() < 0.3 and method in (None, "sinkhorn", "sinkhorn_log"):
        ws = (rng.normal(size=n), rng.normal(size=m))
    mon.case(X, Y, a, b, M, n=n, m=m, reg=reg, metric=metric, method=method or "", cap=cap)
    aa, bb = (ot.unif(n) if a is None else a), (ot.unif(m) if b is None else b)
    P, badP = run(empirical_sinkhorn, X, Y, reg, a, b, metric=metric, numIterMax=cap, warn=warn, warmstart=ws, **kw, **ex)
    Q, badQ = run(ot.sinkhorn, aa, bb, M, reg, numItermax=cap, warn=warn, warmstart=ws, **kw, **ex)
    mon.close("eager-plan", P, Q, 1e-14)
    mon.true("eager-warn", badP == badQ, lambda: "%s %s" % (badP, badQ))
    mon.event("warned" if badP else "converged")
    (Pl, log), _ = run(empirical_sinkhorn, X, Y, reg, a, b, metric=metric, numIterMax=cap, warn=warn, warmstart=ws, log=True, **kw, **ex)
    mon.close("eager-plan", Pl, Q, 1e-14)
    v, badv = run(empirical_sinkhorn2, X, Y, reg, a, b, metric=metric, numIterMax=cap, warn=warn, warmstart=ws, **kw, **ex)
    mon.close("eager-loss", float(v), float((Q * M).sum()), 1e-10 * (1 + np.abs(M).max()))
    mon.true("eager-warn", badv == badQ, lambda: "%s %s" % (badv, badQ))
    (v, _), _ = run(empirical_sinkhorn2, X, Y, reg, a, b, metric=metric, numIterMax=cap, warn=warn, warmstart=ws, log=True, **kw, **ex)
    mon.close("eager-loss", float(v), float((Q * M).sum()), 1e-10 * (1 + np.abs(M).max()))


@core.family(FAMILIES, 250)
def divergence(mon, rng, idx):
    X, Y, a, b = samples(rng, 12)
    metric = gen.pick(rng, METRICS)
    M = ot.dist(X, Y, metric)
    reg = scale(M) * float(10 ** rng.uniform(-0.8, 0.7))
    aa, bb = (ot.unif(len(X)) if a is None else a), (ot.unif(len(Y)) if b is None else b)
    kw = dict(metric=metric, stopThr=1e-11, numIterMax=3000)
    ex = dict(method=gen.pick(rng, ("sinkhorn", "sinkhorn_log")))
    mon.case(X, Y, a, b, n=len(X), m=len(Y), reg=reg, metric=metric, method=ex["method"])
    d, bad = run(empirical_sinkhorn_divergence, X, Y, reg, a, b, **kw, **ex)
    (dl, log), _ = run(empirical_sinkhorn_divergence, X, Y, reg, a, b, log=True, **kw, **ex)
    s = 1 + np.abs(M).max()
    mon.close("divergence-log", float(dl), float(d), 1e-12 * s)
    mon.event("warned" if bad else "converged")
    if bad:
        return
    t = []
    for A, B, wa, wb in ((X, Y, aa, bb), (X, X, aa, aa), (Y, Y, bb, bb)):
        C = ot.dist(A, B, metric)
        Q, _ = run(ot.sinkhorn, wa, wb, C, reg, stopThr=1e-11, numItermax=3000, **ex)
        t.append(float((Q * C).sum()))
    mon.close("divergence-formula", float(d), max(0.0, t[0] - (t[1] + t[2]) / 2), 1e-9 * s)
    mon.close("divergence-terms", [float(log["sinkhorn_loss_" + k]) for k in ("ab", "a", "b")], t, 1e-9 * s)
    mon.le("divergence-nonneg", -float(d), 0.0)
    e, bad = run(empirical_sinkhorn_divergence, Y, X, reg, b, a, **kw, **ex)
    if not bad:
        mon.close("divergence-symmetric", float(e), float(d), 1e-6 * s)
    q = rng.permutation(len(X))
    z, bad = run(empirical_sinkhorn_divergence, X, X[q], reg, aa, aa[q], **kw, **ex)
    if not bad:
        mon.close("divergence-zero", float(z), 0.0, 1e-6 * s)


@core.family(FAMILIES, 250)
def nystroem(mon, rng, idx):
    X, Y, a, b = samples(rng, 14)
    n, m = len(X), len(Y)
    M = ot.dist(X, Y)
    reg = scale(M) * float(10 ** rng.uniform(-0.3, 0.7))
    every = bool(rng.random() < 0.5)
    if every:  # a smaller bandwidth keeps the kernel well conditioned
        reg *= 0.1
    anchors = 2 * max(n, m) if every else int(rng.integers(2, n + m + 2))
    seed = int(rng.integers(1000))
    aa, bb = (ot.unif(n) if a is None else a), (ot.unif(m) if b is None else b)
    mon.case(X, Y, a, b, n=n, m=m, reg=reg, anchors=anchors)
    kw = dict(anchors=anchors, a=a, b=b, random_state=seed, numItermax=3000)
    (T, log), bad = run(empirical_sinkhorn_nystroem, X, Y, reg, log=True, **kw)
    K = log["left_factor"] @ log["right_factor"].T
    if (K <= 1e-9 * np.exp(-M / reg)).any() or np.linalg.norm(log["left_factor"]) > 1e6:
        mon.event("bad-kernel")  # the low-rank kernel lost positivity / is ill conditioned
        return
    mon.event("warned" if bad else "converged")
    if bad:
        return
    P = T[:]
    mon.close("nys-plan", P, log["u"][:, None] * K * log["v"][None], 1e-8)
    mon.close("nys-row", P.sum(1), aa, 1e-8)
    mon.close("nys-col", P.sum(0), bb, 1e-8)
    (v, l2), _ = run(empirical_sinkhorn_nystroem2, X, Y, reg, log=True, **kw)
    s = 1 + np.abs(M).max()
    mon.close("nys-loss", float(v), float((P * M).sum()), 1e-7 * s)
    v2, _ = run(empirical_sinkhorn_nystroem2, X, Y, reg, **kw)
    mon.close("nys-loss", float(v2), float(v), 1e-10 * s)
    T2, _ = run(empirical_sinkhorn_nystroem, X, Y, reg, **kw)
    mon.close("nys-log-call", T2[:], P, 1e-12)
    Z = np.r_[X, Y]
    if every and np.linalg.cond(np.exp(-ot.dist(Z, Z) / reg)) < 1e7:
        F = np.exp(-M / reg)
        mon.close("nys-full-kernel", K, F, 1e-6)
        Q, badq = run(ot.sinkhorn, aa, bb, M, reg, method="sinkhorn_log", stopThr=1e-11)
        if not badq and np.abs(K / F - 1).max() < 1e-6:
            mon.close("nys=sinkhorn", P, Q, 1e-5)
