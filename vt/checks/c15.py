"""Conditional-gradient Gromov-Wasserstein.  Every reported distance is compared with a brute-force
four-index evaluation of the documented objective at the returned plan (square and KL losses,
symmetric and asymmetric structures), the plan with the constraint set of its solver, the recorded
losses with monotone descent from the objective of the supplied initial plan, and the brute-force
Frank-Wolfe gap of the final plan (independent linear program) with zero.  Isomorphic inputs started
at the isomorphism must stay there at value zero; relabelling both graphs and the initial plan
must relabel the trajectory."""

import warnings

import numpy as np

import ot
from vt import core, gen, gw, oracles
from vt.checks.c14 import lp_mass

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("feasible", "value", "descent", "start", "stationary", "isomorphism", "split", "value2", "relabelling", "mass")
REQUIRED_EVENTS = ("asymmetric", "kl", "armijo", "own-start", "moved", "iterations")


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            return f(*a, **k)


class Problem:
    def __init__(self, mon, rng, top=7):
        self.n, self.m = int(rng.integers(1, top)), int(rng.integers(1, top))
        self.loss = gen.pick(rng, ("square_loss", "square_loss", "kl_loss"))
        self.sym = bool(rng.random() < 0.5)
        scale = float(10 ** rng.uniform(-1, 1))
        self.C1 = gw.structure(rng, self.n, self.loss, self.sym or rng.random() < 0.2, scale)
        self.C2 = gw.structure(rng, self.m, self.loss, self.sym, scale * float(rng.uniform(0.5, 2)))
        self.p, self.q = gen.weights(rng, self.n), gen.weights(rng, self.m)
        self.M = gen.cost(rng, self.n, self.m, gen.pick(rng, ("sqeuclid", "random", "ties", "signed")))
        self.alpha = float(gen.pick(rng, (0.5, rng.random(), 0.9, 0.05)))
        self.L = gw.pair_loss(self.C1, self.C2, self.loss)
        self.scale = float(np.abs(self.L).max()) + 1e-6
        self.symmetric = None if rng.random() < 0.5 else bool(np.allclose(self.C1, self.C1.T, atol=1e-10) and np.allclose(self.C2, self.C2.T, atol=1e-10))
        if not self.sym:
            mon.event("asymmetric")
        if self.loss == "kl_loss":
            mon.event("kl")

    def meta(self):
        return dict(n=self.n, m=self.m, loss=self.loss, sym=self.sym, alpha=self.alpha, nontrivial=self.n > 1 and self.m > 1)

    def obj(self, T, fused):
        v = gw.value(self.L, T)
        return (1 - self.alpha) * float(np.sum(self.M * T)) + self.alpha * v if fused else v

    def grad(self, T, fused):
        g = gw.grad(self.L, T)
        return (1 - self.alpha) * self.M + self.alpha * g if fused else g

    def size(self, fused):
        return self.scale + (float(np.abs(self.M).max()) if fused else 0.0)


def coupling(rng, p, q):
    k = int(rng.integers(3))
    if k == 0:
        return np.outer(p, q)
    G = oracles.lp_transport(p, q, rng.normal(size=(len(p), len(q))))[1]
    G = np.maximum(G, 0)
    if k == 1:
        return G
    t = rng.random()
    return t * G + (1 - t) * np.outer(p, q)


def settle(mon, rng):
    k = rng.random()
    if k < 0.15:
        return dict(max_iter=int(rng.integers(1, 6))), False
    if k < 0.4:
        return {}, False
    return dict(max_iter=400, tol_rel=0.0, tol_abs=0.0), True


def judge(mon, P, T, log, fused, key, G0, lp, converged):
    s = P.size(fused)
    v = P.obj(T, fused)
    mon.close("value", float(log[key]), v, 1e-8 * s, 1e-8, "reported distance against the four-index objective")
    L = np.array([float(x) for x in log["loss"]])
    mon.event("iterations", len(L))
    mon.le("descent", float(np.max(np.diff(L), initial=-np.inf)), 1e-10 * s)
    mon.le("start", v - P.obj(G0, fused), 1e-8 * s, "not above the initial plan")
    if P.obj(G0, fused) - v > 1e-6 * s:
        mon.event("moved")
    if converged:
        D = P.grad(T, fused)
        mon.le("stationary", float(np.sum(D * T)) - lp(D), 0.1 * s, "Frank-Wolfe gap of the final plan")


@core.family(FAMILIES, 200, weight=2)
def balanced(mon, rng, idx):
    P = Problem(mon, rng)
    fused = bool(rng.random() < 0.5)
    armijo = bool(rng.random() < 0.3)
    own = bool(rng.random() < 0.6)
    G0 = coupling(rng, P.p, P.q) if own else np.outer(P.p, P.q)
    kw, conv = settle(mon, rng)
    kw.update(loss_fun=P.loss, symmetric=P.symmetric, armijo=armijo)
    if own:
        kw["G0"] = np.array(G0)
        mon.event("own-start")
    if armijo:
        mon.event("armijo")
    mon.case(P.C1, P.C2, P.p, P.q, P.M, G0, fused=fused, kw=str({k: v for k, v in kw.items() if k != "G0"}), **P.meta())
    s = P.size(fused)
    if fused:
        T, log = quiet(ot.gromov.fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        v2, log2 = quiet(ot.gromov.fused_gromov_wasserstein2, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        T2 = log2["T"]
        lin = (1 - P.alpha) * float(np.sum(P.M * T2))
        mon.close("split", float(log2["lin_loss"]), lin, 1e-9 * s, 1e-9)
        mon.close("split", float(log2["quad_loss"]), P.alpha * gw.value(P.L, T2), 1e-8 * s, 1e-8)
        key = "fgw_dist"
        Tn = quiet(ot.gromov.fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, **kw)
    else:
        T, log = quiet(ot.gromov.gromov_wasserstein, P.C1, P.C2, P.p, P.q, log=True, **kw)
        v2, log2 = quiet(ot.gromov.gromov_wasserstein2, P.C1, P.C2, P.p, P.q, log=True, **kw)
        T2 = log2["T"]
        key = "gw_dist"
        Tn = quiet(ot.gromov.gromov_wasserstein, P.C1, P.C2, P.p, P.q, **kw)
    mon.close("same-plan", Tn, T, 1e-12, 1e-12)
    mon.close("value2", float(v2), P.obj(T2, fused), 1e-8 * s, 1e-8)
    for X in (T, T2):
        mon.le("feasible", max(oracles.marg_err(X, P.p, P.q), float(-X.min())), 1e-9)
    judge(mon, P, T, log, fused, key, G0, lambda D: oracles.lp_transport(P.p, P.q, D)[0], conv and not armijo)


@core.family(FAMILIES, 150, weight=2)
def semirelaxed(mon, rng, idx):
    P = Problem(mon, rng)
    fused = bool(rng.random() < 0.5)
    kw, conv = settle(mon, rng)
    kw.update(loss_fun=P.loss, symmetric=P.symmetric)
    k = int(rng.integers(3))
    seed = int(rng.integers(1000))
    if k == 0:
        G0 = np.outer(P.p, np.ones(P.m) / P.m)
    elif k == 1:
        G0 = P.p[:, None] * rng.dirichlet(np.ones(P.m), size=P.n)
        kw["G0"] = np.array(G0)
        mon.event("own-start")
    else:
        name = gen.pick(rng, ("product", "random_product", "random"))
        kw.update(G0=name, random_state=seed)
        G0 = ot.gromov.semirelaxed_init_plan(P.C1, P.C2, P.p, P.M if fused else None, P.alpha, name, random_state=seed)
        mon.le("start-feasible", max(float(np.abs(G0.sum(1) - P.p).max()), float(-G0.min())), 1e-9)
    mon.case(P.C1, P.C2, P.p, P.M, G0, fused=fused, k=k, kw=str({a: b for a, b in kw.items() if a != "G0"}), **P.meta())
    s = P.size(fused)
    if fused:
        T, log = quiet(ot.gromov.semirelaxed_fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, alpha=P.alpha, log=True, **kw)
        v2, log2 = quiet(ot.gromov.semirelaxed_fused_gromov_wasserstein2, P.M, P.C1, P.C2, P.p, alpha=P.alpha, log=True, **kw)
        T2 = log2["T"]
        mon.close("split", float(log2["lin_loss"]), (1 - P.alpha) * float(np.sum(P.M * T2)), 1e-9 * s, 1e-9)
        mon.close("split", float(log2["quad_loss"]), P.alpha * gw.value(P.L, T2), 1e-8 * s, 1e-8)
        key = "srfgw_dist"
    else:
        T, log = quiet(ot.gromov.semirelaxed_gromov_wasserstein, P.C1, P.C2, P.p, log=True, **kw)
        v2, log2 = quiet(ot.gromov.semirelaxed_gromov_wasserstein2, P.C1, P.C2, P.p, log=True, **kw)
        T2 = log2["T"]
        key = "srgw_dist"
    mon.close("value2", float(v2), P.obj(T2, fused), 1e-8 * s, 1e-8)
    for X in (T, T2):
        mon.le("feasible", max(float(np.abs(X.sum(1) - P.p).max()), float(-X.min())), 1e-9)
    judge(mon, P, T, log, fused, key, G0, lambda D: float(np.sum(P.p * D.min(1))), conv)


@core.family(FAMILIES, 150, weight=2)
def partial(mon, rng, idx):
    P = Problem(mon, rng, 6)
    fused = bool(rng.random() < 0.5)
    total = float(10 ** rng.uniform(-0.5, 0.5)) if rng.random() < 0.3 else 1.0
    P.q = P.q * total
    cap = min(P.p.sum(), P.q.sum())
    mass = None if rng.random() < 0.1 else float(cap * rng.uniform(0.05, 0.999))
    mm = cap if mass is None else mass
    kw, conv = settle(mon, rng)
    kw = {{"max_iter": "numItermax", "tol_rel": "tol"}.get(k, k): v for k, v in kw.items() if k != "tol_abs"}
    kw.update(loss_fun=P.loss, symmetric=P.symmetric, m=mass, nb_dummies=int(rng.integers(1, 3)))
    G0 = np.outer(P.p, P.q) * mm / (P.p.sum() * P.q.sum())
    if rng.random() < 0.5:
        X = coupling(rng, P.p / P.p.sum(), P.q / P.q.sum()) * mm * (1 - 1e-9)
        if np.all(X.sum(1) <= P.p) and np.all(X.sum(0) <= P.q) and mass is not None:
            G0 = X / (1 - 1e-9)
            if not (np.all(G0.sum(1) <= P.p) and np.all(G0.sum(0) <= P.q)):
                G0 = X
            kw["G0"] = np.array(G0)
            mon.event("own-start")
    mon.case(P.C1, P.C2, P.p, P.q, P.M, G0, fused=fused, kw=str({a: b for a, b in kw.items() if a != "G0"}), **P.meta())
    s = P.size(fused) * max(1.0, total) ** 2
    if fused:
        T, log = quiet(ot.gromov.partial_fused_gromov_wasserstein, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        v2, log2 = quiet(ot.gromov.partial_fused_gromov_wasserstein2, P.M, P.C1, P.C2, P.p, P.q, alpha=P.alpha, log=True, **kw)
        T2 = log2["T"]
        mon.close("split", float(log2["lin_loss"]), (1 - P.alpha) * float(np.sum(P.M * T2)), 1e-9 * s, 1e-9)
        mon.close("split", float(log2["quad_loss"]), P.alpha * gw.value(P.L, T2), 1e-8 * s, 1e-8)
        key = "partial_fgw_dist"
    else:
        T, log = quiet(ot.gromov.partial_gromov_wasserstein, P.C1, P.C2, P.p, P.q, log=True, **kw)
        v2, log2 = quiet(ot.gromov.partial_gromov_wasserstein2, P.C1, P.C2, P.p, P.q, log=True, **kw)
        T2 = log2["T"]
        key = "partial_gw_dist"
    mon.close("value2", float(v2), P.obj(T2, fused), 1e-8 * s, 1e-8)
    for X in (T, T2):
        mon.le("feasible", max(float((X.sum(1) - P.p).max()), float((X.sum(0) - P.q).max()), float(-X.min())), 1e-8)
        mon.le("mass", abs(float(X.sum()) - mm), 1e-7)
    judge(mon, P, T, log, fused, key, G0, lambda D: lp_mass(P.p, P.q, D, mm), conv)


@core.family(FAMILIES, 200)
def isomorphic(mon, rng, idx):
    P = Problem(mon, rng)
    n = P.n
    s = rng.permutation(n)
    C2 = P.C1[np.ix_(s, s)]
    q = P.p[s]
    T0 = np.zeros((n, n))
    T0[s, np.arange(n)] = q
    x = rng.normal(size=(n, 2))
    M = ((x[:, None] - x[s][None]) ** 2).sum(-1)
    which = gen.pick(rng, ("gw", "fgw", "srgw", "srfgw", "pgw", "pfgw"))
    kw = dict(loss_fun=P.loss, symmetric=None)
    mon.case(P.C1, P.p, M, s, which=which, **P.meta())
    A = (P.C1, C2, P.p) + (() if which.startswith("sr") else (q,))
    f = dict(gw=ot.gromov.gromov_wasserstein2, fgw=ot.gromov.fused_gromov_wasserstein2, srgw=ot.gromov.semirelaxed_gromov_wasserstein2,
             srfgw=ot.gromov.semirelaxed_fused_gromov_wasserstein2, pgw=ot.gromov.partial_gromov_wasserstein2,
             pfgw=ot.gromov.partial_fused_gromov_wasserstein2)[which]
    if "f" in which:
        A = (M,) + A
        kw["alpha"] = P.alpha
    if which in ("pgw", "pfgw"):
        f0 = 1 - 1e-9
        v, log = quiet(f, *A, m=float(P.p.sum() * f0), G0=T0 * f0, log=True, **kw)
    else:
        v, log = quiet(f, *A, G0=T0, log=True, **kw)
    sc = P.size("f" in which)
    mon.close("isomorphism", float(v), 0.0, 1e-8 * sc, 0)
    mon.close("isomorphism", gw.value(gw.pair_loss(P.C1, C2, P.loss), log["T"]), 0.0, 1e-7 * sc, 0)
    if which in ("gw", "fgw") and P.loss == "square_loss":
        # swapping the arguments transposes the problem
        g = ot.gromov.fused_gromov_wasserstein2 if which == "fgw" else ot.gromov.gromov_wasserstein2
        B = (P.C2, P.C1, P.q, P.p)
        D = (P.C1, P.C2, P.p, P.q)
        if which == "fgw":
            B, D = (P.M.T,) + B, (P.M,) + D
        v1, l1 = quiet(g, *D, log=True, max_iter=1, **kw)
        mon.close("value2", float(v1), P.obj(l1["T"], which == "fgw"), 1e-8 * sc, 1e-8)
        v2, l2 = quiet(g, *B, log=True, max_iter=1, **kw)
        mon.close("transposed", float(v2), P.obj(l2["T"].T, which == "fgw"), 1e-8 * sc, 1e-8)


@core.family(FAMILIES, 150)
def relabel(mon, rng, idx):
    """generic (untied) problems: the trajectory follows a relabelling of the nodes"""
    n, m = int(rng.integers(2, 7)), int(rng.integers(2, 7))
    loss = gen.pick(rng, ("square_loss", "kl_loss"))
    C1, C2 = rng.random((n, n)) + 0.05, rng.random((m, m)) + 0.05
    if rng.random() < 0.5:
        C1, C2 = C1 + C1.T, C2 + C2.T
    p, q = rng.dirichlet(np.ones(n) * 3), rng.dirichlet(np.ones(m) * 3)
    M = rng.random((n, m))
    G0 = np.outer(p, q)
    s, t = rng.permutation(n), rng.permutation(m)
    mon.case(C1, C2, p, q, M, s, t, loss=loss, n=n, m=m, nontrivial=True)
    kw = dict(loss_fun=loss, max_iter=1)
    g = ot.gromov.fused_gromov_wasserstein
    T = quiet(g, M, C1, C2, p, q, alpha=0.7, G0=G0, **kw)
    S = quiet(g, M[np.ix_(s, t)], C1[np.ix_(s, s)], C2[np.ix_(t, t)], p[s], q[t], alpha=0.7, G0=G0[np.ix_(s, t)], **kw)
    mon.close("relabelling", S, T[np.ix_(s, t)], 1e-7)
    g = ot.gromov.semirelaxed_fused_gromov_wasserstein
    T = quiet(g, M, C1, C2, p, alpha=0.7, **kw)
    S = quiet(g, M[np.ix_(s, t)], C1[np.ix_(s, s)], C2[np.ix_(t, t)], p[s], alpha=0.7, **kw)
    mon.close("relabelling", S, T[np.ix_(s, t)], 1e-7)
    g = ot.gromov.partial_fused_gromov_wasserstein
    kw = dict(loss_fun=loss, numItermax=1)
    T = quiet(g, M, C1, C2, p, q, m=0.6, alpha=0.7, **kw)
    S = quiet(g, M[np.ix_(s, t)], C1[np.ix_(s, s)], C2[np.ix_(t, t)], p[s], q[t], m=0.6, alpha=0.7, **kw)
    mon.close("relabelling", S, T[np.ix_(s, t)], 1e-7)
