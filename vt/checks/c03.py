"""Route independence of exact OT.  Each case solves one generated problem by a base
route and by several reformulations (threads 2-8, good / stale / zero / nonsense warm
starts, complete sparse matrix, coordinates, transposition, permutation, split atoms,
zero-weight atoms, scaling, row/column shifts, repeated and concurrent calls) and compares
the values with what the reformulation implies.  Non-trivial: at least two active atoms
on both sides; distinct by array hash."""

import threading

import numpy as np
import scipy.sparse as sp
from scipy.spatial.distance import cdist

import ot
from vt import core, gen, oracles
from vt.checks.c01 import problem, size

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("threads", "warmstart", "sparse=dense", "permute", "lazy=dense", "concurrent")
REQUIRED_EVENTS = ("concurrent-calls", "overlapping-calls")


def val(mon, name, got, ref, M, mass, n, extra=1.0):
    mon.close(name, float(got), float(ref),
              1e-12 * (n + 10) * (float(np.abs(M).max()) + 1e-3) * mass * extra)


def reformulate(mon, rng, idx, lo, hi):
    n, m = size(rng, lo, hi)
    a, b, M, kinds = problem(rng, n, m)
    mass, N = float(a.sum()), n + m
    mon.case(a, b, M, n=n, m=m, kinds=str(kinds), nontrivial=(a > 0).sum() > 1 and (b > 0).sum() > 1)
    v0, log = ot.emd2(a, b, M, log=True, return_matrix=True)
    v0 = float(v0)
    for th in rng.choice([2, 3, 4, 8], size=2, replace=False):
        v, lt = ot.emd2(a, b, M, numThreads=int(th), log=True, return_matrix=True)
        val(mon, "threads", v, v0, M, mass, N)
        mon.true("threads-status", lt["result_code"] == log["result_code"], lt["warning"])
        mon.le("threads-marginals", oracles.marg_err(lt["G"], a, b * (a.sum() / b.sum())), 1e-11 * mass)
    sc = float(np.abs(M).max()) + 1e-9
    warm = {
        "optimal": (log["u"], log["v"]),
        "zeros": (np.zeros(n), np.zeros(m)),
        "noisy": (log["u"] + 0.1 * sc * rng.normal(size=n), log["v"] + 0.1 * sc * rng.normal(size=m)),
        "nonsense": (10 * sc * rng.normal(size=n), -10 * sc * rng.normal(size=m)),
        "constant": (np.full(n, sc), np.full(m, sc)),
    }
    for k in rng.choice(sorted(warm), size=3, replace=False):
        w = warm[str(k)]
        v, lw = ot.emd2(a, b, M, potentials_init=w, log=True, return_matrix=True)
        val(mon, "warmstart", v, v0, M, mass, N, 5)
        mon.true("warmstart-status", lw["result_code"] == 1, "%s start: %s" % (k, lw["warning"]))
        mon.le("warmstart-marginals", oracles.marg_err(lw["G"], a, b * (a.sum() / b.sum())), 1e-10 * mass,
               "%s start" % k)
        if k == "optimal":
            P2 = ot.emd(a, b, M, potentials_init=w)
            val(mon, "warmstart", (P2 * M).sum(), v0, M, mass, N, 5)
    # complete sparse graph, entries shuffled (explicit zeros kept)
    ij = np.argwhere(np.ones((n, m), bool))[rng.permutation(n * m)]
    S = sp.coo_matrix((M[ij[:, 0], ij[:, 1]], (ij[:, 0], ij[:, 1])), shape=(n, m))
    val(mon, "sparse=dense", ot.emd2(a, b, S), v0, M, mass, N)
    val(mon, "transpose", ot.emd2(b, a, M.T), v0, M, mass, N)
    p, q = rng.permutation(n), rng.permutation(m)
    val(mon, "permute", ot.emd2(a[p], b[q], M[np.ix_(p, q)]), v0, M, mass, N)
    # split one atom in two with the same costs
    i, t = int(rng.integers(n)), float(rng.random())
    a2 = np.append(a, a[i] * (1 - t))
    a2[i] = a[i] * t
    val(mon, "split-atom", ot.emd2(a2, b, np.vstack([M, M[i:i + 1]])), v0, M, mass, N)
    # zero-weight atoms with attractive costs, anywhere
    k = int(rng.integers(1, 4))
    pos = np.sort(rng.integers(0, m + 1, size=k))
    b2 = np.insert(b, pos, 0.0)
    M2 = np.insert(M, pos, M.min() - 1.0, axis=1)
    v, l2 = ot.emd2(a, b2, M2, return_matrix=True)
    val(mon, "null-atoms", v, v0, M2, mass, N)
    mon.true("null-atoms-empty", not np.any(l2["G"][:, b2 == 0]))
    # homogeneity and shifts
    s = float(10.0 ** rng.uniform(-2, 2))
    val(mon, "scale-cost", ot.emd2(a, b, M * s) / s, v0, M, mass, N, 1 + 1 / s)
    val(mon, "scale-mass", ot.emd2(a * s, b * s, M) / s, v0, M, mass, N)
    f, g = rng.normal(size=n) * sc, rng.normal(size=m) * sc
    bb = b * (a.sum() / b.sum())
    val(mon, "shift-cost", ot.emd2(a, b, M + f[:, None] + g[None]) - f @ a - g @ bb, v0,
        np.abs(M).max() + np.abs(f).max() + np.abs(g).max(), mass, N)
    # history independence: the same call again
    v, l3 = ot.emd2(a, b, M, return_matrix=True)
    mon.true("repeatable", float(v) == v0 and np.array_equal(l3["G"], log["G"]),
             "second identical call differs")


@core.family(FAMILIES, 900)
def small(mon, rng, idx):
    reformulate(mon, rng, idx, 1, 12)


@core.family(FAMILIES, 350)
def medium(mon, rng, idx):
    reformulate(mon, rng, idx, 12, 60)


@core.family(FAMILIES, 20, weight=4)
def large(mon, rng, idx):
    reformulate(mon, rng, idx, 100, 250)


@core.family(FAMILIES, 500)
def lazy(mon, rng, idx):
    n, m = size(rng, 1, 50)
    d = int(rng.integers(1, 5))
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock"))
    X, Y = gen.points(rng, n, d), gen.points(rng, m, d)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    M = cdist(X, Y, metric)
    mon.case(a, b, X, Y, n=n, m=m, d=d, metric=metric)
    v0 = ot.emd2(a, b, M)
    v, log = ot.lp.emd2_lazy(X, Y, a, b, metric=metric, log=True)
    val(mon, "lazy=dense", v, v0, M, 1, n + m, 10)
    w = (log["u"], log["v"])
    if rng.random() < 0.5:
        w = (rng.normal(size=n) * M.max(), rng.normal(size=m))
    v2 = ot.lp.emd2_lazy(X, Y, a, b, metric=metric, potentials_init=w, return_matrix=False)
    val(mon, "lazy-warmstart", v2, v0, M, 1, n + m, 10)
    p, q = rng.permutation(n), rng.permutation(m)
    v3 = ot.lp.emd2_lazy(X[p], Y[q], a[p], b[q], metric=metric, return_matrix=False)
    val(mon, "lazy-permute", v3, v0, M, 1, n + m, 10)
    if metric != "cityblock":
        t = rng.normal(size=d)
        Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
        v4 = ot.lp.emd2_lazy(X @ Q + t, Y @ Q + t, a, b, metric=metric, return_matrix=False)
        val(mon, "lazy-isometry", v4, v0, M.max() + 10, 1, n + m, 20)


@core.family(FAMILIES, 24, weight=6)
def concurrent(mon, rng, idx):
    """Eight Python threads solving different problems at once, repeatedly."""
    probs = []
    for _ in range(8):
        n, m = size(rng, 20, 120)
        probs.append(problem(rng, n, m)[:3])
    mon.case(*[p[2] for p in probs], threads=8)
    seq = [ot.emd(a, b, M, log=True) for a, b, M in probs]
    out = [[] for _ in range(8)]
    gate = threading.Barrier(8)
    active = [0]
    peak = [0]
    lock = threading.Lock()
    use_omp = bool(rng.random() < 0.4)

    def work(t):
        gate.wait()
        for r in range(6):
            k = (t + r) % 8
            a, b, M = probs[k]
            with lock:
                active[0] += 1
                peak[0] = max(peak[0], active[0])
            try:
                res = ot.emd(a, b, M, log=True, numThreads=2 if (use_omp and r % 2) else 1)
            except Exception as e:  # reported below
                res = e
            with lock:
                active[0] -= 1
            out[t].append((k, bool(use_omp and r % 2), res))

    ts = [threading.Thread(target=work, args=(t,)) for t in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for o in out:
        for k, omp, res in o:
            mon.event("concurrent-calls")
            if isinstance(res, Exception):
                mon.fail("concurrent", repr(res))
                continue
            P, log = res
            a, b, M = probs[k]
            val(mon, "concurrent", log["cost"], seq[k][1]["cost"], M, float(a.sum()), 300)
            if not omp:
                mon.true("concurrent-bitwise", np.array_equal(P, seq[k][0]),
                         "plan differs from the sequential call")
    mon.event("overlapping-calls", peak[0] > 1)
