"""Weak, factored and low-rank OT: feasibility, truthful costs and minimisation are checked on every returned object.

Weak OT: the plan is feasible, never worse than the starting plan nor than a shorter run, the logged losses are those of the plans and do
not increase, and the value is compared with a certified lower bound of the convex problem (an interior-point solution whose Frank-Wolfe
gap, one exact LP, turns it into a bound).  Factored OT: marginals of both plans, optimality of both plans for the intermediate measure
they were computed for (exact LP, or the Gibbs form when regularised), the barycentric update replayed, monotone descent of the objective
over iterations, the fixed point at convergence, logged costs and the composed lazy plan.  Low-rank Sinkhorn: constraints of the factors,
values recomputed from the factors, descent from the projected initialisation (obtained with a vanishing step), exact-OT lower bound,
the rank-one closed form, the factorisation of the cost, permutation of the points and refusals.
"""
import warnings

import numpy as np

import ot
from vt import core, gen, oracles
from vt.checks.c15 import quiet
from vt.checks.c16 import entropic_plan

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("weak-feasible", "weak-descent", "weak-value", "weak-optimal", "weak-log", "factored-feasible", "factored-optimal", "factored-update",
            "factored-descent", "factored-fixed", "factored-lazy", "lowrank-feasible", "lowrank-value", "lowrank-descent", "lowrank-bound",
            "lowrank-quality", "lowrank-rank-one", "lowrank-cost", "lowrank-seed", "inputs-intact", "refused")
REQUIRED_EVENTS = ("null-weight", "own-start", "default-weights", "kmeans", "deterministic", "random", "regularised", "rescaled", "alpha-active", "jensen-zero")


def intact(mon, pairs):
    mon.true("inputs-intact", all(np.array_equal(x, y) for x, y in pairs))


def weights(mon, rng, n):
    a = gen.weights(rng, n, positive=rng.random() < 0.7)
    if (a == 0).any():
        mon.event("null-weight")
    return a


def weak_cost(T, X, Y, a):
    on = a > 0
    return float((a[on] * ((X[on] - T[on] @ Y / a[on][:, None]) ** 2).sum(1)).sum())


def weak_bound(X, Y, a, b):
    """certified lower bound: interior-point solution, then its Frank-Wolfe gap by an exact LP"""
    import cvxpy as cp
    on, of = a > 0, b > 0
    X, Y, a, b = X[on], Y[of], a[on], b[of]
    T = cp.Variable((len(a), len(b)), nonneg=True)
    r = cp.multiply(np.sqrt(a)[:, None], X) - cp.multiply(1 / np.sqrt(a)[:, None], T @ Y)
    pr = cp.Problem(cp.Minimize(cp.sum_squares(r)), [cp.sum(T, axis=1) == a, cp.sum(T, axis=0) == b])
    pr.solve(solver="CLARABEL")
    P = np.maximum(T.value, 0)
    G = -2 * (X - P @ Y / a[:, None]) @ Y.T
    # f(S) >= f(P) + <G, S - P> for every S, in particular for every feasible one
    return weak_cost(P, X, Y, a) - float((G * P).sum()) + oracles.lp_transport(a, b, G)[0]


@core.family(FAMILIES, 120, weight=2)
def weak(mon, rng, idx):
    n, m, d = int(rng.integers(1, 7)), int(rng.integers(1, 7)), int(rng.integers(1, 4))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d)) + rng.normal(size=d) * rng.integers(0, 2)
    zero = rng.random() < 0.2
    if zero:
        # X is the image of a feasible plan: the optimal value is null
        mon.event("jensen-zero")
    a, b = weights(mon, rng, n), weights(mon, rng, m)
    kw = dict(a=a, b=b)
    if rng.random() < 0.3:
        mon.event("default-weights")
        a, b, kw = np.full(n, 1 / n), np.full(m, 1 / m), {}
    if zero:
        P = oracles.monotone_plan(rng.normal(size=n), rng.normal(size=m), a, b)
        on = a > 0
        X[on] = P[on] @ Y / a[on][:, None]
    T0 = np.outer(a, b)
    own = rng.random() < 0.4
    if own:
        mon.event("own-start")
        T0 = 0.5 * T0 + 0.5 * oracles.monotone_plan(rng.normal(size=n), rng.normal(size=m), a, b)
        kw["G0"] = T0.copy()
    X, Y = gen.layout(rng, X), gen.layout(rng, Y)
    mon.case(X, Y, a, b, T0, own=own, nontrivial=n > 1 and m > 1)
    keep = [x.copy() for x in (X, Y, a, b)]
    k = 300
    T, log = quiet(ot.weak_optimal_transport, X, Y, numItermax=k, stopThr=1e-13, stopThr2=1e-15, log=True, **kw)
    intact(mon, list(zip(keep, (X, Y, a, b))) + ([(kw["G0"], T0)] if own else []))
    if not mon.true("weak-feasible", T.shape == (n, m) and bool(np.isfinite(T).all() and (T >= -1e-14).all())):
        return
    mon.le("weak-feasible", oracles.marg_err(T, a, b), 1e-10)
    f, f0 = weak_cost(T, X, Y, a), weak_cost(T0, X, Y, a)
    s = 1 + f0
    L = np.asarray(log["loss"], float)
    mon.close("weak-log", float(L[0]), f0, 1e-10 * s, 0, "first loss")
    mon.close("weak-log", float(L[-1]), f, 1e-9 * s, 0, "last loss")
    mon.le("weak-descent", float(np.diff(L).max(initial=-1.0)), 1e-10 * s, "each iteration")
    mon.le("weak-descent", f - f0, 1e-10 * s)
    T2 = quiet(ot.weak_optimal_transport, X, Y, numItermax=5, stopThr=1e-13, stopThr2=1e-15, **kw)
    mon.le("weak-descent", f - weak_cost(T2, X, Y, a), 1e-10 * s, "shorter run")
    lb = weak_bound(X, Y, a, b)
    mon.le("weak-value", lb - f, 1e-6 * s, "below the lower bound")
    mon.le("weak-optimal", f - lb, 0.01 * float(((Y[:, None] - Y[None]) ** 2).sum(-1).max()) + 1e-6 * s, "sublinear rate")
    if zero:
        mon.le("weak-value", abs(lb), 1e-5 * s, "null optimum")
    W = float(oracles.lp_transport(a, b, ((X[:, None] - Y[None]) ** 2).sum(-1))[0])
    mon.le("weak-value", f - W, 0.02 * s, "weak cost is at most the transport cost")


@core.family(FAMILIES, 160, weight=2)
def factored(mon, rng, idx):
    n, m, r, d = int(rng.integers(1, 7)), int(rng.integers(1, 7)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    X, Y, Z = rng.normal(size=(n, d)), rng.normal(size=(m, d)), rng.normal(size=(r, d))
    a, b = weights(mon, rng, n), weights(mon, rng, m)
    kw = dict(a=a, b=b)
    if rng.random() < 0.3:
        mon.event("default-weights")
        a, b, kw = np.full(n, 1 / n), np.full(m, 1 / m), {}
    reg = float(gen.pick(rng, (0, 0, 0.5, 2)))
    if reg:
        mon.event("regularised")
    k = int(gen.pick(rng, (1, 1, 2, 3, 60)))
    w = np.full(r, 1 / r)
    mon.case(X, Y, Z, a, b, reg=reg, k=k, nontrivial=n > 1 and m > 1)
    keep = [x.copy() for x in (X, Y, Z, a, b)]

    def run(k):
        return quiet(ot.factored_optimal_transport, X, Y, reg=reg, r=r, X0=Z, numItermax=k, stopThr=1e-9, log=True, **kw)

    Ga, Gb, P, log = run(k)
    Zp = Z if k == 1 else run(k - 1)[2]
    intact(mon, zip(keep, (X, Y, Z, a, b)))
    if not mon.true("factored-feasible", Ga.shape == (n, r) and Gb.shape == (r, m) and P.shape == (r, d) and bool(np.isfinite(Ga).all() and np.isfinite(Gb).all() and (Ga >= 0).all() and (Gb >= 0).all())):
        return
    t = 1e-12 if not reg else 1e-2  # inner Sinkhorn iterations are capped
    mon.le("factored-feasible", oracles.marg_err(Ga, a, w), t)
    mon.le("factored-feasible", oracles.marg_err(Gb, w, b), t)
    mon.close("factored-update", P, 0.5 * r * (Ga.T @ X + Gb @ Y), 1e-11, 1e-11)
    sq = lambda U, V: ((U[:, None] - V[None]) ** 2).sum(-1)
    stop = len(log["delta_iter"]) < k
    # the plans are those of the measure before the last update (the same one once converged)
    Q = P if stop else Zp
    s = 1 + float(max(sq(X, Q).max(), sq(Q, Y).max()))
    for G, M, p, q, nm in ((Ga, sq(X, Q), a, w, "a"), (Gb, sq(Q, Y), w, b, "b")):
        c = float((G * M).sum())
        mon.close("factored-optimal", float(log["cost" + nm]), c, (1e-6 if stop else 1e-10) * s, 1e-9, "logged cost " + nm)
        if not reg:
            mon.le("factored-optimal", abs(c - oracles.lp_transport(p, q, M)[0]), (1e-7 if stop else 1e-10) * s, "exact plan " + nm)
        else:
            R = entropic_plan(p, q, M, reg, it=3000)
            if R is not None:
                mon.close("factored-optimal", G, R, 1e-5, 1e-4, "entropic plan " + nm)
    T = log["lazy_plan"]
    mon.true("factored-lazy", tuple(T.shape) == (n, m))
    mon.close("factored-lazy", T[:], r * Ga @ Gb, 1e-13, 1e-11)
    if reg == 0:
        mon.le("factored-lazy", oracles.marg_err(np.asarray(T[:]), a, b), 1e-11, "composed plan")
        # descent of W2^2(a, mu) + W2^2(mu, b) over iterations
        obj = lambda U: oracles.lp_transport(a, w, sq(X, U))[0] + oracles.lp_transport(w, b, sq(U, Y))[0]
        mon.le("factored-descent", obj(P) - obj(Z), 1e-10 * s, "from the start")
        mon.le("factored-descent", obj(P) - obj(Zp), 1e-10 * s, "one iteration")
        lb = 0.5 * oracles.lp_transport(a, b, sq(X, Y))[0]
        mon.le("factored-descent", lb - obj(P), 1e-9 * s, "half the transport cost is a bound")
    if stop:
        mon.close("factored-fixed", run(k + 5)[2], P, 1e-8, 0, "converged")
        D = quiet(ot.factored_optimal_transport, X, Y, reg=reg, r=r, X0=P, numItermax=1, **kw)[2]
        mon.close("factored-fixed", D, P, 1e-6, 0, "stationary")
    three = quiet(ot.factored_optimal_transport, X, Y, reg=reg, r=r, X0=Z, numItermax=k, stopThr=1e-9, **kw)
    mon.true("factored-feasible", len(three) == 3 and all(np.array_equal(x, y) for x, y in zip(three, (Ga, Gb, P))), "log only adds")
    # the default start is drawn by the backend
    Ha, Hb, _ = quiet(ot.factored_optimal_transport, X, Y, reg=reg, r=r, numItermax=2, **kw)
    mon.le("factored-feasible", max(oracles.marg_err(Ha, a, w), oracles.marg_err(Hb, w, b)), t, "random start")


@core.family(FAMILIES, 90, weight=4)
def lowrank(mon, rng, idx):
    n, m, d, r = int(rng.integers(1, 7)), int(rng.integers(1, 7)), int(rng.integers(1, 4)), int(gen.pick(rng, (None, 1, 2, 3, 9)) or 0)
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d))
    a, b = weights(mon, rng, n), weights(mon, rng, m)
    kw = dict(a=a, b=b)
    if rng.random() < 0.25:
        mon.event("default-weights")
        a, b, kw = np.full(n, 1 / n), np.full(m, 1 / m), {}
    k = min(n, m, r or 99)
    init = gen.pick(rng, ("random", "random", "deterministic", "kmeans"))
    mon.event(init)
    reg = float(gen.pick(rng, (0, 0, 1e-2, 0.1, 1)))
    alpha = float(gen.pick(rng, (1e-10, 1e-3, 0.9 / k)))
    scale = bool(rng.random() < 0.5)
    if scale:
        mon.event("rescaled")
    kw.update(reg=reg, rank=r or None, alpha=alpha, init=init, rescale_cost=scale, stopThr=1e-9, numItermax=800, seed_init=int(rng.integers(100)), log=True)
    mon.case(X, Y, a, b, kw=str({x: kw[x] for x in kw if x not in "ab"}), nontrivial=k > 1)
    keep = [x.copy() for x in (X, Y, a, b)]
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        Q, R, g, log = ot.lowrank_sinkhorn(X, Y, **kw)
    intact(mon, zip(keep, (X, Y, a, b)))
    conv = not any("Dykstra" in str(w.message) for w in W)
    if not mon.true("lowrank-feasible", Q.shape == (n, k) and R.shape == (m, k) and g.shape == (k,) and bool(all(np.isfinite(z).all() and (z > 0).all() for z in (Q, R, g)))):
        return
    mon.true("lowrank-feasible", bool((g >= alpha * (1 - 1e-3) - (0 if conv else 1)).all()), "lower bound of g")
    if (g < 1.01 * alpha).any():
        mon.event("alpha-active")
    mon.le("lowrank-feasible", max(np.abs(Q.sum(0) - g).max(), np.abs(R.sum(0) - g).max()), 1e-12, "inner marginals")
    C = ((X[:, None] - Y[None]) ** 2).sum(-1)
    M1, M2 = ot.lowrank.compute_lr_sqeuclidean_matrix(X, Y, scale)
    mx = float(np.abs(C).max()) + 1
    c = float(max((X ** 2).sum(1).max(), 1, (-2 * X).max()) * max((Y ** 2).sum(1).max(), 1, Y.max())) ** 0.5 if scale else 1.0
    mon.close("lowrank-cost", M1 @ M2.T, C / c, 1e-12 * mx, 1e-10, "factorised cost")
    mon.true("lowrank-cost", M1.shape == (n, d + 2) and M2.shape == (m, d + 2))
    P = (Q / g) @ R.T
    mon.close("lowrank-value", float(log["value_linear"]), float((C / c * P).sum()), 1e-10 * mx, 1e-10, "linear")
    ent = sum(float((z * np.log(z + 1e-16)).sum()) for z in (Q, R, g))
    mon.close("lowrank-value", float(log["value"]), float((C / c * P).sum()) + reg * ent, 1e-9 * mx, 1e-9)
    mon.close("lowrank-value", log["lazy_plan"][:], P, 1e-13, 1e-10, "lazy plan")
    mon.le("lowrank-feasible", abs(P.sum() - 1), 1e-6 if conv else 1, "mass")
    if conv:
        mon.le("lowrank-feasible", max(np.abs(Q.sum(1) - a).sum(), np.abs(R.sum(1) - b).sum()), 5e-9, "outer marginals")
        mon.le("lowrank-feasible", oracles.marg_err(P, a, b), 5e-9, "product")
        e = oracles.lp_transport(a, b, C / c)[0]
        mon.le("lowrank-bound", e - float(log["value_linear"]), 1e-7 * mx, "exact transport")
        if k == 1:
            mon.close("lowrank-rank-one", P, np.outer(a, b), 1e-8, 0)
        # a vanishing step only projects the initialisation on the constraints
        z = dict(kw, gamma_init="theory", alpha=1e-10)
        l0 = quiet(ot.lowrank_sinkhorn, X, Y, **z)[3]
        if alpha < 1e-9:
            if reg < 0.05:  # steps are aggressive: strong entropies may end above their start
                mon.le("lowrank-descent", float(log["value"] - l0["value"]), 1e-6 * mx, "from the projected start")
            if reg == 0 and init == "random" and k == min(n, m) > 1:
                mon.le("lowrank-quality", float(log["value_linear"]) - e, 0.95 * (float(l0["value_linear"]) - e) + 2e-3 * mx, "progress to the minimum")
    if idx % 4 == 0:
        # seeds give reproducible factors, whatever was drawn in between
        ot.backend.get_backend(X).rand(3)
        Q2, R2, g2 = quiet(ot.lowrank_sinkhorn, X, Y, **dict(kw, log=False))
        mon.true("lowrank-seed", np.array_equal(Q, Q2) and np.array_equal(R, R2) and np.array_equal(g, g2))


@core.family(FAMILIES, 40)
def refusals(mon, rng, idx):
    X, Y = rng.random((3, 2)), rng.random((4, 2))
    k = idx % 5
    mon.case(X, Y, k=k)
    mon.raises("refused", (lambda: ot.lowrank_sinkhorn(X, Y, rank=0), lambda: ot.lowrank_sinkhorn(X, Y, rank=3, alpha=0.5), lambda: ot.lowrank_sinkhorn(X, Y, init="foo"),
                           lambda: ot.lowrank_sinkhorn(X, Y, gamma_init="foo"), lambda: ot.lowrank_sinkhorn(X, Y, rank=-2))[k], (ValueError, NotImplementedError), "case %d" % k)
