"""Barycenters and multi-marginal OT.  LP barycenter: the returned histogram's weighted sum of
exact transport costs (HiGHS, one LP per measure) must equal the optimum of one independently
assembled LP.  Free-support variants: the history of iterates is rebuilt by truncating the
iteration cap, and an online monitor follows the exact energy (network-free LP values) along
it: it may never increase.  Gluing: pairwise marginals are recomputed from the multi-indices.
Monge multi-marginal: primal = dual = value of an enumerated LP on small grids, dual
feasibility enumerated on every multi-index.  Bounds: <= 6 measures, <= 12 atoms."""

import contextlib
import io

import itertools

import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog

import ot
from vt import core, gen, oracles

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("lp-optimal", "free-descent", "glue-marginals", "mm-primal=dual")


def sq(x, y):
    return ((x[:, None] - y[None]) ** 2).sum(-1)


def val(a, b, M):
    return oracles.lp_transport(a, b * (a.sum() / b.sum()), M)[0]


def bary_lp(A, M, w):
    """min_b sum_k w_k OT(A_k, b): variables P_1..P_K, b (all equality rows kept)."""
    n, K = A.shape
    rows = sp.kron(sp.eye(n), np.ones((1, n)))
    cols = sp.kron(np.ones((1, n)), sp.eye(n))
    Aeq = sp.bmat([[sp.kron(sp.eye(K), rows), sp.coo_matrix((K * n, n))],
                   [sp.kron(sp.eye(K), cols), -sp.kron(np.ones((K, 1)), sp.eye(n))]]).tocsr()
    c = np.concatenate([np.kron(w, M.ravel()), np.zeros(n)])
    r = linprog(c, A_eq=Aeq, b_eq=np.concatenate([A.T.ravel(), np.zeros(K * n)]),
                bounds=(0, None), method="highs")
    return float(r.fun)


@core.family(FAMILIES, 150)
def lp_bary(mon, rng, idx):
    n, K = int(rng.integers(2, 9)), int(rng.integers(1, 5))
    A = np.stack([gen.weights(rng, n) for _ in range(K)], 1)
    M = gen.pick(rng, (lambda: gen.symmetric_cost(rng, n), lambda: gen.cost(rng, n, n, "ties"),
                       lambda: rng.random((n, n)), lambda: sq(np.arange(n)[:, None] * 1.0, np.arange(n)[:, None] * 1.0)))()
    w = None if rng.random() < 0.3 else gen.weights(rng, K, "dirichlet")
    solver = gen.pick(rng, ("highs-ipm", "highs", "highs-ds"))
    mon.case(A, M, w, n=n, K=K, solver=solver, nontrivial=K > 1)
    b, log = ot.lp.barycenter(A, M, weights=w, solver=solver, log=True)
    ww = np.full(K, 1 / K) if w is None else w
    s = 1 + np.abs(M).max()
    mon.le("lp-nonneg", -b.min(), 1e-9)
    mon.close("lp-mass", b.sum(), 1.0, 1e-8)
    ref = bary_lp(A, M, ww)
    b2 = np.maximum(b, 0)
    b2 = b2 / b2.sum()
    e = sum(ww[k] * val(A[:, k], b2, M) for k in range(K))
    mon.close("lp-optimal", e, ref, 1e-6 * s)
    mon.close("lp-reported", log["fun"], ref, 1e-6 * s)
    b1 = ot.lp.barycenter(A, M, weights=w, solver=solver)
    mon.close("lp-log-call", b1, b, 1e-12)
    q = rng.permutation(K)
    bq = np.maximum(ot.lp.barycenter(A[:, q], M, weights=None if w is None else w[q], solver=solver), 0)
    e = sum(ww[k] * val(A[:, k], bq / bq.sum(), M) for k in range(K))
    mon.close("lp-permute", e, ref, 1e-6 * s)


def measures(rng, d, hi=9):
    K = int(rng.integers(1, 5))
    X = [gen.points(rng, int(rng.integers(1, hi)), d) for _ in range(K)]
    a = [gen.weights(rng, len(x), gen.pick(rng, ("uniform", "dirichlet", "sparse"))) for x in X]
    return K, X, a


@core.family(FAMILIES, 220)
def free_support(mon, rng, idx):
    d = int(rng.integers(1, 4))
    K, X, a = measures(rng, d)
    k = int(rng.integers(1, 8))
    X0 = rng.normal(size=(k, d)) * 2
    b = None if rng.random() < 0.3 else gen.weights(rng, k, "dirichlet")
    w = None if rng.random() < 0.3 else gen.weights(rng, K, "dirichlet")
    ww = np.full(K, 1 / K) if w is None else w
    bb = np.full(k, 1 / k) if b is None else b
    mon.case(X0, *X, *a, b, w, K=K, k=k, d=d)
    E = lambda Y: sum(ww[i] * val(bb, a[i], sq(Y, X[i])) for i in range(K))
    prev, e0 = X0, E(X0)
    s = 1 + max(float(np.abs(x).max()) for x in X) ** 2
    hist = None
    for t in (1, 2, 3, 50):
        Y, log = ot.lp.free_support_barycenter(X, a, X0, b=b, weights=w, numItermax=t, stopThr=1e-12, log=True)
        mon.true("free-shape", Y.shape == (k, d), lambda: str(Y.shape))
        h = [float(z) for z in log["displacement_square_norms"]]
        if hist is not None:
            mon.close("free-history-prefix", h[:len(hist)], hist, 1e-9 * s)
        hist = h[:t]
        mon.true("free-cap", len(h) <= t)
        mon.true("free-stop", len(h) == t or h[-1] <= 1e-12, lambda: "%s" % h)
        e1 = E(Y)
        mon.le("free-descent", e1 - e0, 1e-9 * s, lambda: "iterations %d" % t)
        if t <= 3:
            # each step is the barycentric image of a plan that is optimal for the previous
            # support: the energy decrease dominates the displacement
            move = float((bb[:, None] * (Y - prev) ** 2).sum()) if t == len(h) else 0.0
            mon.le("free-sufficient-descent", move - (e0 - e1), 1e-8 * s)
        e0, prev = e1, Y
    # translating every measure translates the fixed point
    v = rng.normal(size=d)
    Y1 = ot.lp.free_support_barycenter(X, a, X0, b=b, weights=w, numItermax=1)
    Y2 = ot.lp.free_support_barycenter([x + v for x in X], a, X0 + v, b=b, weights=w, numItermax=1)
    E2 = sum(ww[i] * val(bb, a[i], sq(Y2 - v, X[i])) for i in range(K))
    if all(len(set(map(tuple, x.round(9)))) == len(x) for x in X):
        mon.close("free-translate", E2, E(Y1), 1e-7 * s)
    if K == 1 and len(X[0]) == 1:
        mon.close("free-dirac", Y, np.repeat(X[0], k, 0), 1e-9 * s)


@core.family(FAMILIES, 200)
def generalized(mon, rng, idx):
    d = int(rng.integers(1, 4))
    K = int(rng.integers(2, 5))
    P = [rng.normal(size=(int(rng.integers(1, d + 1)), d)) for _ in range(K)]
    P[0] = rng.normal(size=(d, d)) + 2 * np.eye(d)
    X = [rng.normal(size=(int(rng.integers(1, 9)), p.shape[0])) for p in P]
    a = [gen.weights(rng, len(x), gen.pick(rng, ("uniform", "dirichlet"))) for x in X]
    k = int(rng.integers(1, 7))
    Y0 = rng.normal(size=(k, d))
    w = None if rng.random() < 0.3 else gen.weights(rng, K, "dirichlet")
    ww = np.full(K, 1 / K) if w is None else w
    b = None if rng.random() < 0.5 else gen.weights(rng, k, "dirichlet")
    bb = np.full(k, 1 / k) if b is None else b
    S = sum(l * p.T @ p for l, p in zip(ww, P))
    if np.linalg.cond(S) > 1e5:
        raise core.Skip
    mon.case(*X, *P, *a, w, b, K=K, k=k, d=d)
    E = lambda Y: sum(ww[i] * val(bb, a[i], sq(Y @ P[i].T, X[i])) for i in range(K))
    e0 = None
    s = 1 + max(float((x ** 2).max()) for x in X)
    for t in (1, 2, 3, 60):
        Y, log = ot.lp.generalized_free_support_barycenter(
            X, a, P, k, Y_init=Y0, b=b, weights=w, numItermax=t, stopThr=1e-16, log=True)
        mon.true("gen-shape", Y.shape == (k, d))
        e1 = E(Y)
        if e0 is not None:
            mon.le("gen-descent", e1 - e0, 1e-8 * s, lambda: "iterations %d" % t)
        e0 = e1
    # at a fixed point the support is the exact minimiser for some optimal plans: a
    # weighted least-squares step from exact plans cannot improve it
    if len(log["displacement_square_norms"]) < 60:
        R = np.zeros((k, d))
        for i in range(K):
            _, T = oracles.lp_transport(bb, a[i], sq(Y @ P[i].T, X[i]))
            R += ww[i] * ((T / bb[:, None]) @ X[i]) @ P[i]
        Yn = R @ np.linalg.inv(S)
        uniq = all(_unique(bb, a[i], sq(Y @ P[i].T, X[i])) for i in range(K))
        if uniq:
            mon.close("gen-fixed-point", Yn, Y, 1e-5 * s)


def _unique(a, b, M):
    """The optimal plan is unique (perturbation test)."""
    _, P = oracles.lp_transport(a, b, M)
    D = np.abs(np.sin(np.arange(M.size).reshape(M.shape) * 7.3 + 1)) * 1e-5
    for sgn in (1, -1):
        _, Q = oracles.lp_transport(a, b, M + sgn * D)
        if np.abs(P - Q).max() > 1e-9:
            return False
    return True


@core.family(FAMILIES, 220)
def generic_costs(mon, rng, idx):
    d = int(rng.integers(1, 3))
    K, X, a = measures(rng, d, 7)
    a = [gen.weights(rng, len(x), gen.pick(rng, ("uniform", "dirichlet"))) for x in X]
    n = int(rng.integers(1, 6))
    X0 = rng.normal(size=(n, d))
    lam = gen.weights(rng, K, "dirichlet") + 0.05
    method = gen.pick(rng, ("L2_barycentric_proj", "true_fixed_point"))
    kind = "median" if (method == "true_fixed_point" and d == 1 and rng.random() < 0.4) else "mean"
    a0 = None if rng.random() < 0.5 else gen.weights(rng, n, "dirichlet")
    clean = bool(rng.random() < 0.4)
    mon.case(X0, *X, *a, lam, K=K, n=n, d=d, method=method, kind=kind, clean=clean)
    if kind == "mean":
        costs = [lambda x, y, l=l: l * sq(x, y) for l in lam]

        def ground(y):
            return sum(l * z for l, z in zip(lam, y)) / lam.sum()
        if rng.random() < 0.3:
            lam = np.ones(K)
            costs = sq
    else:
        costs = [lambda x, y, l=l: l * np.abs(x[:, None, 0] - y[None, :, 0]) for l in lam]

        def ground(y):
            Y = np.concatenate(y, 1)
            o = np.argsort(Y, 1)
            c = np.cumsum(lam[o], 1)
            j = (c < lam.sum() / 2).sum(1)
            return np.take_along_axis(np.take_along_axis(Y, o, 1), j[:, None], 1)
    cl = costs if isinstance(costs, list) else [costs] * K
    kw = dict(ground_bary=ground, a=a0, method=method, numItermax=int(gen.pick(rng, (1, 3, 12))),
              stopThr=float(gen.pick(rng, (1e-5, 0.0, 1e-2))), clean_measure=clean)
    # exact ties in costs make plans ambiguous, energies are still unique
    out = ot.lp.free_support_barycenter_generic_costs(X, a, X0, costs, log=True, **kw)
    log = out[-1]
    al = log["a_list"] if method == "true_fixed_point" else [np.full(n, 1 / n) if a0 is None else a0] * len(log["X_list"])
    s = 1 + max(float((x ** 2).max()) for x in X) * K
    V = []
    for Y, w in zip(log["X_list"], al):
        mon.true("generic-shape", Y.shape == (len(w), d))
        mon.close("generic-mass", w.sum(), 1.0, 1e-9)
        mon.le("generic-weights-nonneg", -w.min(), 0.0)
        V.append(sum(val(w, a[i], cl[i](Y, X[i])) for i in range(K)))
    mon.close("generic-energy-history", [float(v) for v in log["V_list"]], V, 1e-8 * s)
    if len(V) > 1:
        mon.le("generic-descent", float(np.max(np.diff(V))), 1e-8 * s)
        mon.close("generic-diff-history", [float(v) for v in log["diff_list"]], -np.diff(V), 2e-8 * s)
    mon.true("generic-status", (log["exit_status"] == "Stationary Point") == bool(float(log["diff_list"][-1]) < kw["stopThr"]))
    mon.true("generic-cap", len(V) <= kw["numItermax"] + 1)
    mon.true("generic-last", np.array_equal(out[0], log["X_list"][-1]))
    if clean and method == "true_fixed_point":
        D = sq(out[0], out[0]) + np.eye(len(out[0]))
        mon.true("generic-clean", D.min() >= 1e-12)
    mon.close("generic-energy-fn", float(ot.lp.ot_barycenter_energy(X, a, out[0], al[-1], costs)), V[-1], 1e-8 * s)
    out2 = ot.lp.free_support_barycenter_generic_costs(X, a, X0, costs, log=False, **kw)
    Y2 = out2[0] if method == "true_fixed_point" else out2
    mon.close("generic-log-call", Y2, out[0], 1e-12)


@core.family(FAMILIES, 350)
def gluing(mon, rng, idx):
    K, n = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    a = gen.weights(rng, n)
    pis, bs = [], []
    for k in range(K):
        m = int(rng.integers(1, 7))
        b = gen.weights(rng, m)
        if rng.random() < 0.5:
            G = ot.emd(a, b, rng.random((n, m)))
        else:
            G = np.outer(a, b)
        pis.append(G)
        bs.append(G.sum(0))
    mon.case(*pis, K=K, n=n)
    J, w, log = ot.lp.NorthWestMMGluing(pis, log=True)
    J = np.asarray(J)
    mon.true("glue-shape", J.shape == (len(w), K), lambda: str(J.shape))
    mon.le("glue-nonneg", -w.min(), 0.0)
    mon.true("glue-unique", len({tuple(j) for j in J}) == len(J))
    for k in range(K):
        mon.close("glue-marginals", np.bincount(J[:, k], weights=w, minlength=len(bs[k])), bs[k], 1e-12)
    g = log["gamma"]
    mon.true("glue-tensor-shape", g.shape == (n,) + tuple(len(b) for b in bs))
    for k in range(K):
        ax = tuple(i for i in range(1, K + 1) if i != k + 1)
        mon.close("glue-pairwise", g.sum(ax), pis[k], 1e-12)
    rho = g.sum(0)
    dense = np.zeros_like(rho)
    np.add.at(dense, tuple(J.T), w)
    mon.close("glue-tensor=list", dense, rho, 1e-12)
    mon.true("glue-size", len(w) <= sum((p > 0).sum() for p in pis))
    J2, w2 = ot.lp.NorthWestMMGluing(pis)
    mon.close("glue-log-call", np.sort(w2), np.sort(w), 1e-14)
    mon.true("glue-inputs", all(np.allclose(p.sum(0), b, atol=1e-15) for p, b in zip(pis, bs)))


@core.family(FAMILIES, 500)
def monge_mm(mon, rng, idx):
    d, n = int(rng.integers(2, 5)), int(rng.integers(1, 6))
    A = np.stack([gen.weights(rng, n) for _ in range(d)], 1)
    if rng.random() < 0.2:
        A[:, 1] = A[:, 0]
    mon.case(A, n=n, d=d, nontrivial=n > 1)
    A0 = A.copy()
    obj, log = ot.lp.dmmot_monge_1dgrid_loss(A, log=True)
    mon.true("mm-input-intact", np.array_equal(A, A0))
    X = log["A"]
    for j in range(d):
        m = np.zeros(n)
        for i, v in X.items():
            m[i[j]] += v
        mon.close("mm-marginals", m, A[:, j], 1e-12)
    mon.le("mm-nonneg", -min(X.values()), 1e-16)
    prim = sum((max(i) - min(i)) * v for i, v in X.items())
    mon.close("mm-primal", float(obj), prim, 1e-12 * (1 + n))
    mon.close("mm-primal=dual", float(log["dual objective"]), prim, 1e-10 * (1 + n))
    dual = log["dual"]
    worst = max(sum(dual[j][i[j]] for j in range(d)) - (max(i) - min(i)) for i in itertools.product(range(n), repeat=d))
    mon.le("mm-dual-feasible", worst, 1e-9)
    mon.close("mm-dual-objective", float(log["dual objective"]), sum(dual[j] @ A[:, j] for j in range(d)), 1e-10)
    q = rng.permutation(d)
    mon.close("mm-permute", float(ot.lp.dmmot_monge_1dgrid_loss(A[:, q])), prim, 1e-12 * (1 + n))
    if d == 2:
        g = np.arange(n)[:, None] * 1.0
        mon.close("mm-two-is-W1", prim, val(A[:, 0], A[:, 1], np.abs(g - g.T)), 1e-9 * (1 + n))
    B = A + 0.0
    with contextlib.redirect_stdout(io.StringIO()):
        out, l2 = ot.lp.dmmot_monge_1dgrid_optimize(B, niters=15, lr_init=1e-3, log=True)
    mon.true("mm-optimize-input-intact", np.array_equal(B, A))
    for h in out:
        mon.close("mm-optimize-simplex", h.sum(), 1.0, 1e-12)
        mon.le("mm-optimize-nonneg", -h.min(), 0.0)
    e = float(ot.lp.dmmot_monge_1dgrid_loss(np.stack(out, 1)))
    # the objective is the (convex, piecewise linear) multi-marginal W1: subgradient steps
    # of this size cannot raise it by more than their length
    mon.le("mm-optimize-descent", e - prim, 15 * 1e-3 * n * d * n)
