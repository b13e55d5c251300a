"""Entropic, proximal, Bregman-alternated and entropic semi-relaxed / partial Gromov-Wasserstein.
Values are compared with the brute-force four-index objective at the returned plan; marginals with
the tolerance the solver reports.  Where the solver reports convergence the plan must be the
entropic plan of its own linearised cost: the check linearises by brute force and solves that
problem with its own log-domain iteration (independent Dykstra variant for partial, row softmax for
semi-relaxed, Frank-Wolfe gap for proximal steps).  When epsilon dominates the relative smoothness
constant (or the problem is concave) the objective may not end above the start."""

import warnings

import numpy as np
from scipy.special import logsumexp

import ot
from vt import core, gen, gw, oracles
from vt.checks.c15 import Problem, coupling, quiet

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("nonnegative", "marginals", "value", "value2", "split", "stationary", "descent", "proximal-stationary",
            "bapg-marginal", "row-softmax", "partial-stationary", "partial-feasible")
REQUIRED_EVENTS = ("converged", "asymmetric", "kl", "warmstart", "ppa", "concave")


def entropic_plan(p, q, D, eps, it=20000):
    f, g = np.zeros(len(p)), np.zeros(len(q))
    with np.errstate(divide="ignore"):
        lp, lq = np.log(p), np.log(q)
    K = -D / eps
    for _ in range(it):
        f = lp - logsumexp(K + g[None], axis=1)
        h = lq - logsumexp(K + f[:, None], axis=0)
        d = np.abs(h - g)[q > 0].max()
        g = h
        if d < 1e-13:
            break
    else:
        return None
    return np.exp(K + f[:, None] + g[None])


def spread(P, fused):
    c1, c2 = float(np.abs(P.C1).max()), float(np.abs(P.C2).max())
    c = c1 * c2 + max(c1, c2) ** 2 if P.loss == "square_loss" else max(c1, c2) * (1 + float(np.abs(np.log(P.C2)).max() + np.abs(np.log(P.C1)).max()))
    v = 4 * max(P.scale, c) * (P.alpha if fused else 1.0)
    return v + (float(np.abs(P.M).max()) * (1 - P.alpha) if fused else 0.0)


def entropy(T):
    return float(np.sum(T[T > 0] * np.log(T[T > 0])))


@core.family(FAMILIES, 250, weight=2)
def balanced(mon, rng, idx):
    P = Problem(mon, rng, 6)
    P.p, P.q = gen.weights(rng, P.n, positive=True), gen.weights(rng, P.m, positive=True)
    concave = rng.random() < 0.25
    if concave:
        P.loss, P.symmetric = "square_loss", None
        x, y = rng.normal(size=(P.n, 2)), rng.normal(size=(P.m, 3))
        P.C1, P.C2 = ((x[:, None] - x[None]) ** 2).sum(-1), ((y[:, None] - y[None]) ** 2).sum(-1)
        P.L = gw.pair_loss(P.C1, P.C2, P.loss)
        P.scale = float(np.abs(P.L).max()) + 1e-6
        mon.event("concave")
    fused = bool(rng.random() < 0.5)
    solver = gen.pick(rng, ("PGD", "PGD", "PPA"))
    if solver == "PPA":
        mon.event("ppa")
    eps = spread(P, fused) * float(10 ** rng.uniform(-1.6, 0.5))
    warm = bool(rng.random() < 0.3)
    if warm:
        mon.event("warmstart")
    kw = dict(loss_fun=P.loss, symmetric=P.symmetric, epsilon=eps, solver=solver, warmstart=warm, max_iter=int(gen.pick(rng, (1, 11, 300))),
              numItermax=5000, stopThr=1e-13)
    G0 = coupling(rng, P.p, P.q)
    G0 = 0.9 * G0 + 0.1 * np.outer(P.p, P.q)
    if rng.random() < 0.5:
        kw["G0"] = np.array(G0)
    else:
        G0 = np.outer(P.p, P.q)
    mon.case(P.C1, P.C2, P.p, P.q, P.M, G0, fused=fused, kw=str({k: v for k, v in kw.items() if k != "G0"}), **P.meta())
    s = P.size(fused)
    if fused:
        T, log = quiet(ot.gromov.entropic_fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        v2, log2 = quiet(ot.gromov.entropic_fused_gromov_wasserstein2, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        key = "fgw_dist"
        lin = (1 - P.alpha) * float(np.sum(P.M * log2["T"]))
        mon.close("split", float(log2["lin_loss"]), lin, 1e-9 * s, 1e-9)
        e2 = oracles.marg_err(log2["T"], P.p, P.q)
        mon.close("split", float(log2["quad_loss"]), P.obj(log2["T"], True) - lin, (1e-7 + 8 * P.n * e2) * s, 1e-7)
    else:
        T, log = quiet(ot.gromov.entropic_gromov_wasserstein, P.C1, P.C2, P.p, P.q, log=True, **kw)
        v2, log2 = quiet(ot.gromov.entropic_gromov_wasserstein2, P.C1, P.C2, P.p, P.q, log=True, **kw)
        key = "gw_dist"
    mon.close("value2", float(v2), P.obj(log2["T"], fused), (1e-6 + 8 * P.n * oracles.marg_err(log2["T"], P.p, P.q)) * s, 1e-6)
    mon.true("nonnegative", bool(np.all(T >= 0)) and bool(np.isfinite(T).all()))
    err = oracles.marg_err(T, P.p, P.q)
    mon.close("value", float(log[key]), P.obj(T, fused), s * (1e-8 + 8 * P.n * err), 1e-8)
    if err > 1e-9:
        mon.event("inner-budget")
        return
    mon.le("marginals", err, 1e-9)
    obj = lambda X: P.obj(X, fused) + (eps * entropy(X) if solver == "PGD" else 0.0)
    smooth = 4 * np.abs(P.C1).max() * np.abs(P.C2).max() if P.loss == "square_loss" else 2 * np.abs(P.C1).max() * np.abs(np.log(P.C2)).max()
    if concave or (solver == "PPA" and eps >= 2 * smooth * (P.alpha if fused else 1.0)):
        mon.le("descent", obj(T) - obj(G0), 1e-7 * (s + eps))
    if not log["err"][-1] <= 1e-9:
        return
    mon.event("converged")
    D = P.grad(T, fused)
    if solver == "PGD":
        S = entropic_plan(P.p, P.q, D, eps)
        if S is not None:
            mon.close("stationary", T, S, 1e-6, 0, "plan against the entropic plan of its linearised cost")
    else:
        # fixed point of the proximal step: T is its own entropic plan with cost D - eps log T
        with np.errstate(divide="ignore"):
            S = entropic_plan(P.p, P.q, np.where(T > 0, D - eps * np.log(np.maximum(T, 1e-300)), 1e6 * eps), eps)
        if S is not None:
            mon.close("proximal-stationary", T, S, 1e-6, 0)


@core.family(FAMILIES, 150)
def proximal(mon, rng, idx):
    """long proximal runs reach a stationary point of the unregularised problem"""
    P = Problem(mon, rng, 6)
    P.p, P.q = gen.weights(rng, P.n, "dirichlet"), gen.weights(rng, P.m, "uniform")
    fused = bool(rng.random() < 0.5)
    eps = spread(P, fused) * float(10 ** rng.uniform(-1.3, -0.5))
    kw = dict(loss_fun=P.loss, symmetric=P.symmetric, epsilon=eps, solver="PPA", max_iter=1500, tol=1e-12, numItermax=300, stopThr=1e-11, warn=False)
    mon.case(P.C1, P.C2, P.p, P.q, P.M, fused=fused, **P.meta())
    if fused:
        T, log = quiet(ot.gromov.entropic_fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
    else:
        T, log = quiet(ot.gromov.entropic_gromov_wasserstein, P.C1, P.C2, P.p, P.q, log=True, **kw)
    s = P.size(fused)
    if oracles.marg_err(T, P.p, P.q) > 1e-5:
        mon.event("inner-budget")
        return
    D = P.grad(T, fused)
    gap = float(np.sum(D * T)) - oracles.lp_transport(P.p, P.q, D)[0]
    mon.le("proximal-gap", gap, 0.1 * s)
    mon.le("descent", P.obj(T, fused) - P.obj(np.outer(P.p, P.q), fused), 0.02 * s) if eps > 4 * P.scale else None


@core.family(FAMILIES, 200)
def alternated(mon, rng, idx):
    P = Problem(mon, rng, 6)
    P.p, P.q = gen.weights(rng, P.n, positive=True), gen.weights(rng, P.m, positive=True)
    fused = bool(rng.random() < 0.5)
    eps = spread(P, fused) * float(10 ** rng.uniform(-1, 0.7))
    ml = bool(rng.random() < 0.5)
    its = int(gen.pick(rng, (1, 11, 1000)))
    kw = dict(loss_fun=P.loss, symmetric=P.symmetric, epsilon=eps, marginal_loss=ml, max_iter=its)
    G0 = 0.8 * coupling(rng, P.p, P.q) + 0.2 * np.outer(P.p, P.q)
    if rng.random() < 0.5:
        kw["G0"] = np.array(G0)
    else:
        G0 = np.outer(P.p, P.q)
    mon.case(P.C1, P.C2, P.p, P.q, P.M, G0, fused=fused, kw=str({k: v for k, v in kw.items() if k != "G0"}), **P.meta())
    s = P.size(fused)
    if fused:
        T, log = quiet(ot.gromov.BAPG_fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        v2, log2 = quiet(ot.gromov.BAPG_fused_gromov_wasserstein2, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        key = "fgw_dist"
        lin = (1 - P.alpha) * float(np.sum(P.M * log2["T"]))
        mon.close("split", float(log2["lin_loss"]), lin, 1e-9 * s, 1e-9)
        mon.close("split", float(log2["quad_loss"]) + float(log2["lin_loss"]), float(v2), 1e-9 * s, 1e-9)
    else:
        T, log = quiet(ot.gromov.BAPG_gromov_wasserstein, P.C1, P.C2, P.p, P.q, log=True, **kw)
        v2, log2 = quiet(ot.gromov.BAPG_gromov_wasserstein2, P.C1, P.C2, P.p, P.q, log=True, **kw)
        key = "gw_dist"
    if not np.isfinite(T).all():
        mon.event("overflow")
        return
    mon.true("nonnegative", bool(np.all(T >= 0)))
    mon.le("bapg-marginal", float(np.abs(T.sum(0) - P.q).max()), 1e-10, "column marginal of the last projection")
    rows = float(np.abs(T.sum(1) - P.p).max())
    # the constant part of the objective uses the prescribed marginals
    slack = s * (1e-8 + 8 * P.n * rows)
    mon.close("value", float(log[key]), P.obj(T, fused), slack, 1e-8)
    mon.close("value2", float(v2), float(log[key]), 1e-9 * s, 1e-9)
    if not ml:
        fac = P.alpha if fused else 1.0
        h2 = 2 * P.C2 if P.loss == "square_loss" else np.log(P.C2)
        want = -fac * float(np.sum(P.C1 @ T @ h2.T * T)) + ((1 - P.alpha) * float(np.sum(P.M * T)) if fused else 0.0)
        mon.close("bapg-loss", float(log["loss"]), want, 1e-9 * s * 10, 1e-8)
    # one alternation from the start, from the documented formulas
    if its == 1:
        def df(X):
            if ml:
                # marginal terms of the prescribed weights
                g = 2 * (-0.5) * (P.C1 @ X @ h(P.C2).T + P.C1.T @ X @ h(P.C2)) + const
            else:
                g = -(P.C1 @ X @ h(P.C2).T + P.C1.T @ X @ h(P.C2))
            return P.alpha * g + (1 - P.alpha) * P.M if fused else g
        h = (lambda c: 2 * c) if P.loss == "square_loss" else np.log
        f1 = (lambda c: c ** 2) if P.loss == "square_loss" else (lambda c: c * np.log(c) - c)
        f2 = (lambda c: c ** 2) if P.loss == "square_loss" else (lambda c: c)
        const = (f1(P.C1) + f1(P.C1).T) @ P.p[:, None] + ((f2(P.C2) + f2(P.C2).T) @ P.q)[None, :]
        X = G0 * np.exp(-df(G0) / eps)
        X = X * (P.p / X.sum(1))[:, None]
        X = X * np.exp(-df(X) / eps)
        X = X * (P.q / X.sum(0))[None]
        mon.close("bapg-step", T, X, 1e-9, 1e-7)
    elif log["err"][-1] <= 1e-9:
        mon.event("converged")


@core.family(FAMILIES, 200)
def semirelaxed(mon, rng, idx):
    P = Problem(mon, rng, 6)
    P.p = gen.weights(rng, P.n, positive=True)
    fused = bool(rng.random() < 0.5)
    eps = spread(P, fused) * float(10 ** rng.uniform(-1, 0.7))
    kw = dict(loss_fun=P.loss, symmetric=P.symmetric, epsilon=eps, max_iter=int(gen.pick(rng, (1, 11, 3000))))
    G0 = np.outer(P.p, np.ones(P.m) / P.m)
    if rng.random() < 0.5:
        G0 = P.p[:, None] * rng.dirichlet(np.ones(P.m), size=P.n)
        kw["G0"] = np.array(G0)
    mon.case(P.C1, P.C2, P.p, P.M, G0, fused=fused, kw=str({k: v for k, v in kw.items() if k != "G0"}), **P.meta())
    s = P.size(fused)
    if fused:
        T, log = quiet(ot.gromov.entropic_semirelaxed_fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, alpha=P.alpha, log=True, **kw)
        v2, log2 = quiet(ot.gromov.entropic_semirelaxed_fused_gromov_wasserstein2, P.M, P.C1, P.C2, P.p, alpha=P.alpha, log=True, **kw)
        key = "srfgw_dist"
        mon.close("split", float(log["lin_loss"]), (1 - P.alpha) * float(np.sum(P.M * T)), 1e-9 * s, 1e-9)
        mon.close("split", float(log["quad_loss"]), P.alpha * gw.value(P.L, T), 1e-8 * s, 1e-8)
    else:
        T, log = quiet(ot.gromov.entropic_semirelaxed_gromov_wasserstein, P.C1, P.C2, P.p, log=True, **kw)
        v2, log2 = quiet(ot.gromov.entropic_semirelaxed_gromov_wasserstein2, P.C1, P.C2, P.p, log=True, **kw)
        key = "srgw_dist"
    mon.true("nonnegative", bool(np.all(T >= 0)) and bool(np.isfinite(T).all()))
    mon.le("marginals", float(np.abs(T.sum(1) - P.p).max()), 1e-10)
    mon.close("value", float(log[key]), P.obj(T, fused), 1e-8 * s, 1e-8)
    mon.close("value2", float(v2), P.obj(log2["T"], fused), 1e-8 * s, 1e-8)
    if eps >= 2 * P.scale * (P.alpha if fused else 1.0):
        mon.le("descent", P.obj(T, fused) - P.obj(G0, fused), 1e-9 * s)
    with np.errstate(divide="ignore"):
        step = lambda X: P.p[:, None] * np.exp((Z := np.log(X) - P.grad(X, fused) / eps) - logsumexp(Z, axis=1)[:, None])
    if kw["max_iter"] == 1:
        mon.close("row-softmax", T, step(G0), 1e-9, 1e-7)
    elif log["err"][-1] <= 1e-9:
        mon.event("converged")
        with np.errstate(divide="ignore"):
            mon.close("row-softmax", T, step(T), 1e-6, 0)


@core.family(FAMILIES, 100, weight=2)
def partial(mon, rng, idx):
    P = Problem(mon, rng, 6)
    P.p, P.q = gen.weights(rng, P.n, "dirichlet"), gen.weights(rng, P.m, "dirichlet") * float(rng.uniform(0.7, 1.3))
    cap = min(P.p.sum(), P.q.sum())
    mm = float(cap * rng.uniform(0.2, 0.95))
    fused = bool(rng.random() < 0.6)
    reg = spread(P, fused) * float(10 ** rng.uniform(-0.7, 0.7))
    G0 = np.outer(P.p, P.q) * mm / (P.p.sum() * P.q.sum())
    kw = dict(loss_fun=P.loss, symmetric=P.symmetric, reg=reg, m=mm, numItermax=int(gen.pick(rng, (1, 21))))
    mon.case(P.C1, P.C2, P.p, P.q, P.M, fused=fused, kw=str(kw), **P.meta())
    s = P.size(fused)
    if fused:
        T, log = quiet(ot.gromov.entropic_partial_fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        v2, log2 = quiet(ot.gromov.entropic_partial_fused_gromov_wasserstein2, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        key = "partial_fgw_dist"
        lin = (1 - P.alpha) * float(np.sum(P.M * log2["T"]))
        mon.close("split", float(log2["lin_loss"]), lin, 1e-9 * s, 1e-9)
        mon.close("split", float(log2["quad_loss"]), P.obj(log2["T"], True) - lin, 1e-8 * s, 1e-8)
    else:
        T, log = quiet(ot.gromov.entropic_partial_gromov_wasserstein, P.C1, P.C2, P.p, P.q, log=True, **kw)
        v2, log2 = quiet(ot.gromov.entropic_partial_gromov_wasserstein2, P.C1, P.C2, P.p, P.q, log=True, **kw)
        key = "partial_gw_dist"
    mon.true("nonnegative", bool(np.all(T >= 0)) and bool(np.isfinite(T).all()))
    mon.close("value", float(log[key]), P.obj(T, fused), 1e-8 * s, 1e-8)
    mon.close("value2", float(v2), P.obj(log2["T"], fused), 1e-8 * s, 1e-8)
    mon.le("partial-feasible", abs(float(T.sum()) - mm), 1e-8)
    mon.le("partial-feasible", max(float((T.sum(1) - P.p).max()), float((T.sum(0) - P.q).max())), 1e-4)
    one = kw["numItermax"] == 1
    if one or log["err"][-1] <= 1e-7:
        D = P.grad(G0 if one else T, fused)
        S, l2 = quiet(ot.partial.entropic_partial_wasserstein, P.p, P.q, D, reg, m=mm, method="sinkhorn_log", numItermax=6000, stopThr=1e-12, log=True)
        if l2["err"][-1] < 1e-11:
            mon.event("converged")
            mon.close("partial-stationary", T, S, 1e-4 * mm, 0)
