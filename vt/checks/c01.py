"""Every exact-OT entry point (emd, emd2, emd2_lazy; dense, sparse-graph and lazy
costs) is run on generated problems (ties, zero and 1e-7 weights, duplicated points,
signed / huge / tiny / constant / Monge costs, 1xN shapes, lists, integer costs,
strided arrays).  A case is non-trivial when both sides have at least two active atoms;
cases are distinct by a hash of their arrays.  Oracles: marginals, non-negativity,
basic-solution support size, reported cost = <plan, M>, and an independent
Bellman-Ford residual-graph certificate of optimality of the plan itself, cross-checked
with HiGHS on a subset."""

import numpy as np
import scipy.sparse as sp
from scipy.spatial.distance import cdist

import ot
from vt import core, gen, oracles

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("marginals", "optimal", "cost-is-inner-product", "matches-highs")


def judge(mon, P, M, a, b, cost=None, edges=None, basic=True):
    mass = float(a.sum())
    scale = float(np.max(np.abs(M[edges] if edges is not None else M))) if M.size else 0.0
    P = np.asarray(P)
    mon.true("shape", P.shape == M.shape, "plan %s for cost %s" % (P.shape, M.shape))
    if P.shape != M.shape:
        return
    mon.finite("finite", P)
    mon.le("nonnegative", -float(P.min()), 1e-15 * mass, "negative entry")
    mon.le("marginals", oracles.marg_err(P, a, b * (a.sum() / b.sum())), 1e-11 * mass,
           "marginals not met")
    if np.any(a == 0):
        mon.true("zero-rows", not np.any(P[a == 0]), "mass on a zero-weight row")
    if np.any(b == 0):
        mon.true("zero-cols", not np.any(P[:, b == 0]), "mass on a zero-weight column")
    if basic:
        na, nb = int((a > 0).sum()), int((b > 0).sum())
        mon.true("basic-solution", int((P > 1e-14 * mass).sum()) <= na + nb - 1,
                 "more than n+m-1 positive entries")
    if edges is not None:
        mon.true("only-given-edges", not np.any(P[~edges]), "mass outside the given edges")
    val = float(np.sum(np.where(P != 0, P * np.where(P != 0, M, 0), 0.0)))
    gap, rounds, u, v = oracles.residual_certificate(P, M, a, b * (a.sum() / b.sum()),
                                                     tol_support=1e-13 * mass, edges=edges)
    if gap is None:
        mon.fail("optimal", "negative cycle in the residual graph: plan is not optimal")
    else:
        mon.le("optimal", gap, 1e-9 * mass * max(scale, 1e-12), "certified sub-optimality")
    if cost is not None:
        mon.close("cost-is-inner-product", float(cost), val,
                  1e-12 * mass * scale + 1e-300, 0, "reported cost")
    return val


def problem(rng, n, m):
    ka, kb, kc = (gen.pick(rng, gen.WEIGHT_KINDS), gen.pick(rng, gen.WEIGHT_KINDS),
                  gen.pick(rng, gen.COST_KINDS))
    a, b = gen.weights(rng, n, ka), gen.weights(rng, m, kb)
    M = gen.cost(rng, n, m, kc)
    if rng.random() < 0.2:  # masses other than one
        s = float(10.0 ** rng.uniform(-3, 3))
        a, b = a * s, b * s
    return a, b, M, (ka, kb, kc)


def size(rng, lo, hi):
    n, m = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    r = rng.random()
    if r < 0.25:
        m = n
    elif r < 0.3:
        n = 1
    elif r < 0.35:
        m = 1
    return n, m


def run_dense(mon, rng, idx, lo, hi, highs):
    n, m = size(rng, lo, hi)
    a, b, M, kinds = problem(rng, n, m)
    mode = int(rng.integers(6))
    mon.case(a, b, M, n=n, m=m, kinds=str(kinds), mode=mode,
             nontrivial=(a > 0).sum() > 1 and (b > 0).sum() > 1)
    cost = None
    threads = int(gen.pick(rng, (1, 1, 1, 2, 4)))
    if mode == 0:
        P = ot.emd(a, b, M, numThreads=threads)
        c2 = ot.emd2(a, b, M)
    elif mode == 1:
        P, log = ot.emd(a, b, gen.layout(rng, M), log=True, numThreads=threads)
        cost = log["cost"]
        mon.true("status-ok", log["result_code"] == 1 and log["warning"] is None,
                 "not optimal on a feasible problem: %s" % log["warning"])
        c2 = ot.emd2(a, b, M)
    elif mode == 2:
        c2, log = ot.emd2(a, b, M, return_matrix=True, log=True, numThreads=threads)
        P, cost = log["G"], log["cost"]
        mon.true("status-ok", log["result_code"] == 1 and log["warning"] is None,
                 "not optimal on a feasible problem: %s" % log["warning"])
    elif mode == 3:
        P = ot.emd(a.tolist(), b.tolist(), M.tolist())
        c2 = ot.emd2(a.tolist(), b.tolist(), M.tolist())
    elif mode == 4:  # empty weights are uniform
        a, b = np.ones(n) / n, np.ones(m) / m
        P = ot.emd([], [], M, numThreads=threads)
        c2 = ot.emd2([], [], M)
    else:  # several target histograms
        k = int(rng.integers(2, 5))
        B = np.stack([gen.weights(rng, m) * a.sum() for _ in range(k)], 1)
        rs = ot.emd2(a, B, M, return_matrix=True)
        mon.true("one-per-histogram", len(rs) == k)
        for i, r in enumerate(rs):
            judge(mon, r[1]["G"], M, a, B[:, i], r[0])
        return
    val = judge(mon, P, M, a, b, cost)
    if val is None:
        return
    scale = float(np.max(np.abs(M))) * a.sum()
    mon.close("emd2-is-optimal-value", float(c2), val, 1e-10 * scale + 1e-300)
    if highs:
        ref, _ = oracles.lp_transport(a / a.sum(), b / b.sum(), M)
        if ref is not None:
            mon.close("matches-highs", val / a.sum(), ref,
                      1e-7 * max(1.0, float(np.max(np.abs(M)))))


@core.family(FAMILIES, 2400)
def dense_small(mon, rng, idx):
    run_dense(mon, rng, idx, 1, 9, idx % 4 == 0)


@core.family(FAMILIES, 900)
def dense_medium(mon, rng, idx):
    run_dense(mon, rng, idx, 8, 60, idx % 16 == 0)


@core.family(FAMILIES, 48, weight=5)
def dense_large(mon, rng, idx):
    run_dense(mon, rng, idx, 100, 320, False)


@core.family(FAMILIES, 400)
def uniform_assignment(mon, rng, idx):
    """Uniform square problems are assignment problems (independent solver)."""
    from scipy.optimize import linear_sum_assignment

    n = int(rng.integers(2, 80))
    M = gen.cost(rng, n, n)
    mon.case(M, n=n)
    P, log = ot.emd(np.ones(n), np.ones(n), M, log=True)
    r, c = linear_sum_assignment(M)
    mon.close("matches-assignment", log["cost"], M[r, c].sum(), 1e-9 * n * np.max(np.abs(M)) + 1e-300)
    judge(mon, P, M, np.ones(n), np.ones(n), log["cost"])
    mon.le("integral-plan", float(np.max(np.abs(P - np.round(P)))), 1e-9)


@core.family(FAMILIES, 700)
def sparse_graph(mon, rng, idx):
    """Transport restricted to a sparse set of edges that admits a plan."""
    n, m = size(rng, 1, 25)
    a, b, M, kinds = problem(rng, n, m)
    # edges: support of a random feasible plan (north-west corner of permutations)
    E = np.zeros((n, m), bool)
    for _ in range(int(rng.integers(1, 4))):
        E |= oracles.monotone_plan(rng.random(n), rng.random(m), a, b) > 0
    # the corner rule drops edges of ~1e-18 flows: keep whole blocks of slack edges
    E |= rng.random((n, m)) < gen.pick(rng, (0.1, 0.3, 0.9))
    E[:, int(np.argmax(b))] = True
    E[int(np.argmax(a))] = True
    ij = np.argwhere(E)
    ij = ij[rng.permutation(len(ij))]
    S = sp.coo_matrix((M[ij[:, 0], ij[:, 1]], (ij[:, 0], ij[:, 1])), shape=(n, m))
    fmt = gen.pick(rng, ("coo", "csr", "csc"))
    S2 = {"coo": S, "csr": S.tocsr(), "csc": S.tocsc()}[fmt]
    mon.case(a, b, M, E, n=n, m=m, fmt=fmt, kinds=str(kinds), edges=int(E.sum()))
    P, log = ot.emd(a, b, S2, log=True)
    mon.true("status-ok", log["result_code"] == 1, "status %s" % log["warning"])
    if log["result_code"] != 1:
        return
    c2, log2 = ot.emd2(a, b, S2, return_matrix=True, log=True)
    judge(mon, P.toarray(), M, a, b, log["cost"], edges=E)
    judge(mon, log2["G"].toarray(), M, a, b, c2, edges=E)
    mon.close("emd2-is-optimal-value", float(c2), log["cost"],
              1e-11 * float(np.max(np.abs(M))) * a.sum() + 1e-300)


METRICS = {"sqeuclidean": "sqeuclidean", "euclidean": "euclidean", "cityblock": "cityblock"}


@core.family(FAMILIES, 700)
def lazy(mon, rng, idx):
    """Costs computed on the fly from coordinates."""
    n, m = size(rng, 1, 45)
    d = int(rng.integers(1, 6))
    metric = gen.pick(rng, tuple(METRICS))
    X, Y = gen.points(rng, n, d), gen.points(rng, m, d)
    if rng.random() < 0.2:
        X, Y = X * 1e3, Y * 1e3
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    M = cdist(X, Y, METRICS[metric])
    mon.case(a, b, X, Y, n=n, m=m, d=d, metric=metric)
    aa, bb = (a, b)
    if rng.random() < 0.2:
        aa, bb = None, None
        a, b = np.ones(n) / n, np.ones(m) / m
    c, log = ot.lp.emd2_lazy(gen.layout(rng, X), gen.layout(rng, Y), aa, bb, metric=metric, log=True)
    mon.true("status-ok", log["result_code"] == 1, "status %s" % log["warning"])
    G = log["G"].toarray() if hasattr(log["G"], "toarray") else np.asarray(log["G"])
    val = judge(mon, G, M, a, b)
    if val is not None:
        mon.close("cost-is-inner-product", float(c), val, 1e-11 * float(M.max()) + 1e-14 * float(M.max()) + 1e-300)


@core.family(FAMILIES, 300)
def dtypes(mon, rng, idx):
    """float32 weights and costs, integer costs."""
    n, m = size(rng, 2, 20)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    k = int(rng.integers(3))
    if k == 0:
        M = rng.integers(-5, 20, size=(n, m)).astype(gen.pick(rng, (np.int64, np.int32, np.uint8, np.float32, bool)))
        P, log = ot.emd(a, b, M, log=True)
        mon.case(a, b, M, n=n, m=m, cost_dtype=str(M.dtype))
        judge(mon, P, M.astype(float), a, b, log["cost"])
    elif k == 1:
        M = gen.cost(rng, n, m, "sqeuclid").astype(np.float32)
        a32, b32 = a.astype(np.float32), b.astype(np.float32)
        mon.case(a32, b32, M, n=n, m=m, dtype="float32")
        P, log = ot.emd(a32, b32, M, log=True)
        mon.true("dtype-kept", P.dtype == np.float32, P.dtype)
        mon.le("marginals32", oracles.marg_err(P.astype(float), a32.astype(float), b32.astype(float)), 3e-6)
        ref, _ = oracles.lp_transport(a, b, M.astype(float))
        mon.close("value32", log["cost"], ref, 1e-5 * max(1e-30, float(M.max())))
    else:
        # unnormalised integer histograms keep their units
        ia = rng.integers(1, 10, size=n)
        ib = rng.multinomial(int(ia.sum()), np.ones(m) / m)
        M = gen.cost(rng, n, m, "ties")
        mon.case(ia, ib, M, n=n, m=m, dtype="int-mass")
        P, log = ot.emd(ia.astype(float), ib.astype(float), M, log=True)
        judge(mon, P, M, ia.astype(float), ib.astype(float), log["cost"])
        mon.le("integral-plan", float(np.max(np.abs(P - np.round(P)))), 1e-9)
