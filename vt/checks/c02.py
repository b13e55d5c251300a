"""Dual certificates of exact OT.  Problems are generated as for C01 (dense with zero
weights, sparse graphs, lazy coordinate costs, several histograms, centred or not, 1..4
threads, warm starts).  Non-trivial: at least two active atoms on both sides.  Oracles:
dual feasibility on every admissible pair, complementary slackness on the plan's support,
zero duality gap, and the centring identity."""

import numpy as np
import scipy.sparse as sp
from scipy.spatial.distance import cdist

import ot
from ot.lp._network_simplex import center_ot_dual
from vt import core, gen, oracles
from vt.checks.c01 import problem, size

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("dual-feasible", "slackness", "zero-gap", "centred")


def judge(mon, u, v, P, M, a, b, cost, edges=None, centred=None, ftol=1e-12):
    scale = float(np.max(np.abs(M[edges] if edges is not None else M)))
    mass = float(a.sum())
    mon.true("shapes", np.shape(u) == a.shape and np.shape(v) == b.shape,
             "%s %s" % (np.shape(u), np.shape(v)))
    mon.finite("finite-duals", np.concatenate([u, v]))
    S = M - u[:, None] - v[None, :]
    # potentials pass through big-M arcs of size n*scale (+n): rounding is absolute
    tol = ftol * (len(a) + len(b) + 5) * (scale + 1)
    mon.le("dual-feasible", -float((S if edges is None else S[edges]).min()), tol,
           "u_i + v_j exceeds M_ij")
    sup = P > 1e-12 * mass
    if sup.any():
        mon.le("slackness", float(np.abs(S[sup]).max()), tol, "slack on the support of the plan")
    mon.close("zero-gap", float(u @ a + v @ b), float(cost), tol * mass)
    if centred:
        mon.le("centred", abs(float(u @ a - v @ b)), tol * mass,
               "weighted dual sums differ")


def run_dense(mon, rng, idx, lo, hi):
    n, m = size(rng, lo, hi)
    a, b, M, kinds = problem(rng, n, m)
    centre = bool(rng.random() < 0.7)
    th = int(gen.pick(rng, (1, 1, 2, 4)))
    mode = int(rng.integers(4))
    kw = dict(center_dual=centre, numThreads=th)
    warm = rng.random() < 0.3
    if warm:
        kw["potentials_init"] = (rng.normal(size=n) * np.abs(M).max(), rng.normal(size=m))
    mon.case(a, b, M, n=n, m=m, kinds=str(kinds), mode=mode, centre=centre, threads=th, warm=warm,
             nontrivial=(a > 0).sum() > 1 and (b > 0).sum() > 1)
    zeros = bool((a == 0).any() or (b == 0).any())
    if mode <= 1:
        P, log = ot.emd(a, b, M, log=True, **kw)
        judge(mon, log["u"], log["v"], P, M, a, b, log["cost"], centred=centre or zeros)
    elif mode == 2:
        c, log = ot.emd2(a, b, M, log=True, return_matrix=True, **kw)
        judge(mon, log["u"], log["v"], log["G"], M, a, b, c, centred=centre or zeros)
    else:
        k = int(rng.integers(2, 4))
        B = np.stack([gen.weights(rng, m) * a.sum() for _ in range(k)], 1)
        for i, (c, log) in enumerate(ot.emd2(a, B, M, log=True, return_matrix=True, **kw)):
            z = bool((a == 0).any() or (B[:, i] == 0).any())
            judge(mon, log["u"], log["v"], log["G"], M, a, B[:, i], c, centred=centre or z)


@core.family(FAMILIES, 3000)
def dense_small(mon, rng, idx):
    run_dense(mon, rng, idx, 1, 10)


@core.family(FAMILIES, 900)
def dense_medium(mon, rng, idx):
    run_dense(mon, rng, idx, 10, 70)


@core.family(FAMILIES, 40, weight=5)
def dense_large(mon, rng, idx):
    run_dense(mon, rng, idx, 120, 350)


@core.family(FAMILIES, 900)
def sparse_graph(mon, rng, idx):
    n, m = size(rng, 1, 30)
    a, b, M, kinds = problem(rng, n, m)
    E = oracles.monotone_plan(rng.random(n), rng.random(m), a, b) > 0
    E |= rng.random((n, m)) < gen.pick(rng, (0.1, 0.4, 1.1))
    E[:, int(np.argmax(b))] = True
    E[int(np.argmax(a))] = True
    ij = np.argwhere(E)
    ij = ij[rng.permutation(len(ij))]
    S = sp.coo_matrix((M[ij[:, 0], ij[:, 1]], (ij[:, 0], ij[:, 1])), shape=(n, m))
    mon.case(a, b, M, E, n=n, m=m, kinds=str(kinds), edges=int(E.sum()))
    P, log = ot.emd(a, b, S, log=True)
    # a zero-weight atom carries no constraint in the sparse solver: judge active pairs
    act = E & (a > 0)[:, None] & (b > 0)[None, :]
    judge(mon, log["u"], log["v"], P.toarray(), M, a, b, log["cost"], edges=act, centred=True)
    c, log2 = ot.emd2(a, b, S, log=True, return_matrix=True)
    judge(mon, log2["u"], log2["v"], log2["G"].toarray(), M, a, b, c, edges=act, centred=True)


@core.family(FAMILIES, 700)
def lazy(mon, rng, idx):
    n, m = size(rng, 1, 40)
    d = int(rng.integers(1, 5))
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock"))
    X, Y = gen.points(rng, n, d), gen.points(rng, m, d)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    M = cdist(X, Y, metric)
    centre = bool(rng.random() < 0.7)
    mon.case(a, b, X, Y, n=n, m=m, d=d, metric=metric, centre=centre)
    c, log = ot.lp.emd2_lazy(X, Y, a, b, metric=metric, log=True, center_dual=centre)
    act = np.outer(a > 0, b > 0)
    judge(mon, log["u"], log["v"], log["G"].toarray(), M, a, b, c, edges=act, centred=centre, ftol=2e-12)


@core.family(FAMILIES, 500)
def helpers(mon, rng, idx):
    """center_ot_dual and estimate_dual_null_weights on arbitrary potentials."""
    n, m = size(rng, 1, 12)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    M = gen.cost(rng, n, m)
    # a feasible dual, tight nowhere in particular
    u = rng.normal(size=n)
    v = (M - u[:, None]).min(0)
    mon.case(a, b, u, v, n=n, m=m)
    u2, v2 = center_ot_dual(u, v, a, b)
    sc = float(np.abs(u).max() + np.abs(v).max())
    mon.le("centred", abs(float(u2 @ a - v2 @ b)), 1e-12 * sc + 1e-300)
    mon.close("centring-only-translates", u2[:, None] + v2[None], u[:, None] + v[None], 1e-12 * sc + 1e-300)
    u3, v3 = center_ot_dual(u, v)
    mon.le("centred", abs(float(u3.mean() - v3.mean())), 1e-12 * sc + 1e-300)
    # spoil the potentials of zero-weight atoms: they must be repaired, others kept
    uu, vv = u.copy(), v.copy()
    uu[a == 0] += rng.normal(size=int((a == 0).sum())) * 10
    vv[b == 0] += rng.normal(size=int((b == 0).sum())) * 10
    # feasibility between an active and a null atom is repaired on the null side
    repair = getattr(ot.lp._network_simplex, "estimate_dual_null_weights", None)
    if repair is None:
        return
    u4, v4 = repair(uu, vv, a, b, M)
    sc = float(np.abs(uu).max() + np.abs(vv).max() + np.abs(M).max())
    mon.le("dual-feasible", float((u4[:, None] + v4[None] - M).max()), 1e-12 * sc + 1e-300)
    mon.close("value-unchanged", u4 @ a + v4 @ b, u @ a + v @ b, 1e-12 * sc + 1e-300)
    mon.le("centred", abs(float(u4 @ a - v4 @ b)), 1e-12 * sc + 1e-300)
