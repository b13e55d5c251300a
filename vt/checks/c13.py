"""Partial OT.  Exact solvers: the plan must be dominated by the weights and carry the requested
mass, and an independent linear program (HiGHS) gives the minimum of the same problem; the
Lagrangian version against its own linear program and against the balanced plan at None.
The entropic version: weak duality, with potentials obtained by the check's own ascent.
The 1D path: the optimum of *every* partial assignment along the path by dynamic programming."""

import warnings

import numpy as np
from scipy.optimize import linprog, minimize
import scipy.sparse as sp

import ot
from vt import core, gen

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("mass", "dominated", "partial-optimal", "lagrange-optimal", "entropic-optimal", "path-optimal", "path-nested")
REQUIRED_EVENTS = ("full-mass", "several-dummies", "path-with-ties", "fractional-power", "weighted-zero")


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            r = f(*a, **k)
    return r, " | ".join(str(x.message) for x in w)


def lp_partial(a, b, M, m=None):
    n, k = M.shape
    A = sp.vstack([sp.kron(sp.eye(n), np.ones((1, k))), sp.kron(np.ones((1, n)), sp.eye(k))]).tocsr()
    kw = {} if m is None else dict(A_eq=np.ones((1, n * k)), b_eq=[m])
    r = linprog(M.ravel(), A_ub=A, b_ub=np.r_[a, b], bounds=(0, None), method="highs",
                options={"primal_feasibility_tolerance": 1e-10, "dual_feasibility_tolerance": 1e-10}, **kw)
    if r.x is None:
        raise core.Skip()
    return float(r.fun)


def instance(mon, rng, top=10):
    n, k = int(rng.integers(1, top)), int(rng.integers(1, top))
    a, b = gen.weights(rng, n), gen.weights(rng, k)
    if (a == 0).any() or (b == 0).any():
        mon.event("weighted-zero")
    c = rng.random()
    if c < 0.3:
        b = b * float(rng.uniform(0.2, 1))
    elif c < 0.5:
        a = a * float(rng.uniform(0.2, 1))
    M = gen.cost(rng, n, k)
    return n, k, a, b, M


@core.family(FAMILIES, 700, weight=2)
def exact(mon, rng, idx):
    n, k, a, b, M = instance(mon, rng)
    if rng.random() < 0.3:
        z = float(rng.uniform(0.5, 4))
        a, b = a * z, b * z
    top = min(a.sum(), b.sum())
    c = rng.random()
    m = top if c < 0.2 else (0.0 if c < 0.23 else float(top * rng.uniform(1e-3, 1)))
    if m == top:
        mon.event("full-mass")
    nd = int(gen.pick(rng, (1, 1, 2, 5)))
    if nd > 1:
        mon.event("several-dummies")
    mon.case(a, b, M, n=n, k=k, m=m, nd=nd, nontrivial=n > 1 and k > 1)
    a0, b0, M0 = a.copy(), b.copy(), M.copy()
    mm = m if rng.random() < 0.5 else np.float64(m)
    (P, log), txt = quiet(ot.partial.partial_wasserstein, a, b, M, m=mm, nb_dummies=nd, log=True)
    mon.true("inputs-intact", np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(M, M0))
    mon.true("shape", P.shape == (n, k))
    mon.true("nonnegative", (P >= 0).all())
    eps = 1e-9 * max(a.sum(), b.sum())
    mon.le("dominated", max((P.sum(1) - a).max(), (P.sum(0) - b).max()), eps)
    mon.le("mass", abs(P.sum() - m), eps)
    cost, s = float(np.sum(P * M)), float(np.abs(M).max() * max(a.sum(), b.sum())) + 1e-300
    mon.close("partial-truthful", float(log["partial_w_dist"]), cost, 1e-10 * s)
    mon.close("partial-optimal", cost, lp_partial(a, b, M / (np.abs(M).max() or 1), m) * (np.abs(M).max() or 1), 1e-8 * s)
    v, _ = quiet(ot.partial.partial_wasserstein2, a, b, M, m=mm, nb_dummies=nd)
    mon.close("partial-value", float(v), cost, 1e-10 * s)
    if idx % 10 == 0:
        for bad in (-0.1, top * 1.01 + 1e-3):
            mon.raises("rejects-infeasible-mass", lambda: ot.partial.partial_wasserstein(a, b, M, m=bad), ValueError)
        (P, _), _ = quiet(ot.partial.partial_wasserstein, [], [], M, m=0.5, log=True)
        mon.le("dominated", max((P.sum(1) - 1 / n).max(), (P.sum(0) - 1 / k).max()), 1e-9, "default weights")
        mon.le("mass", abs(P.sum() - 0.5), 1e-9)


@core.family(FAMILIES, 500)
def lagrange(mon, rng, idx):
    n, k, a, b, M = instance(mon, rng)
    a, b = a * (1 - 1e-12), b * (1 - 1e-12)
    c = rng.random()
    if c < 0.2:
        reg = None
    elif c < 0.3:
        reg = float(M.min() - np.abs(M).max() * rng.random() - 1e-3)
    elif c < 0.4:
        reg = float(gen.pick(rng, M.ravel()))
    else:
        reg = float(rng.uniform(M.min(), M.max() + 1e-9))
    nd = int(gen.pick(rng, (1, 1, 3)))
    mon.case(a, b, M, n=n, k=k, reg=reg, nd=nd, nontrivial=n > 1 and k > 1)
    a0, b0, M0 = a.copy(), b.copy(), M.copy()
    if reg is None and rng.random() < 0.5:
        (P, log), _ = quiet(ot.partial.partial_wasserstein, a, b, M, nb_dummies=nd, log=True)
    else:
        (P, log), _ = quiet(ot.partial.partial_wasserstein_lagrange, a, b, M, reg_m=reg, nb_dummies=nd, log=True)
    mon.true("inputs-intact", np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(M, M0))
    mon.true("shape", P.shape == (n, k))
    mon.true("nonnegative", (P >= 0).all())
    mon.le("dominated", max((P.sum(1) - a).max(), (P.sum(0) - b).max()), 1e-9)
    s = float(np.abs(M).max() + abs(reg or 0)) + 1e-300
    cost = float(np.sum(P * M))
    mon.close("lagrange-truthful", float(log["cost"]), cost, 1e-10 * s)
    r = M.max() + 1 if reg is None else reg
    s = max(s, abs(r))
    mon.close("lagrange-optimal", float(np.sum(P * (M - r))), lp_partial(a, b, (M - r) / s) * s, 1e-8 * s)
    if reg is None:
        mon.le("mass", abs(P.sum() - min(a.sum(), b.sum())), 1e-9, "the full mass by default")
    Q, _ = quiet(ot.partial.partial_wasserstein_lagrange, a, b, M, reg_m=reg, nb_dummies=nd)
    mon.true("log-off-same", np.array_equal(P, Q))
    if idx % 10 == 0:
        mon.raises("rejects-mass-above-one", lambda: ot.partial.partial_wasserstein_lagrange(2 * np.ones(n), b, M), ValueError)


@core.family(FAMILIES, 400, weight=2)
def entropic(mon, rng, idx):
    n, k = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    kinds = ("uniform", "dirichlet", "dyadic", "geometric")
    a, b = gen.weights(rng, n, gen.pick(rng, kinds)), gen.weights(rng, k, gen.pick(rng, kinds))
    if rng.random() < 0.5:
        a, b = a * rng.uniform(0.3, 2), b * rng.uniform(0.3, 2)
    M = gen.cost(rng, n, k, gen.pick(rng, ("sqeuclid", "euclid", "random", "ties", "constant", "monge", "signed")))
    scale = float(np.abs(M).max()) + 1e-3
    reg = scale * float(10 ** rng.uniform(-1.2, 1))
    top = min(a.sum(), b.sum())
    m = None if rng.random() < 0.15 else float(top * rng.uniform(0.05, 1))
    mm = top if m is None else m
    method = gen.pick(rng, ("sinkhorn", "sinkhorn_log"))
    mon.case(a, b, M, n=n, k=k, m=mm, reg=reg, method=method, nontrivial=n > 1 and k > 1)
    a0, b0, M0 = a.copy(), b.copy(), M.copy()
    (P, log), txt = quiet(ot.partial.entropic_partial_wasserstein, a, b, M, reg, m=m, method=method, numItermax=4000,
                          stopThr=1e-13, log=True)
    mon.true("inputs-intact", np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(M, M0))
    mon.true("nonnegative", P.shape == (n, k) and np.isfinite(P).all() and (P >= 0).all())
    mon.close("entropic-truthful", float(log["partial_w_dist"]), float(np.sum(P * M)), 1e-9 * scale * mm)
    mon.le("mass", abs(P.sum() - mm), 1e-9 * mm)
    if not log["err"][-1] < 1e-12 * max(1.0, mm):
        mon.event("not-converged")
        return
    mon.event("converged")
    tot = max(a.sum(), b.sum())
    mon.le("dominated", max((P.sum(1) - a).max(), (P.sum(0) - b).max()), 1e-6 * tot, method)
    up = np.sum(P * M) + reg * np.sum(P * (np.log(np.maximum(P, 1e-300)) - 1))

    def neg(x):
        al, be, la = x[:n], x[n:n + k], x[-1]
        Q = np.exp(np.clip((la - al[:, None] - be[None] - M) / reg, -700, 300))
        v = -(al @ a) - be @ b + la * mm - reg * Q.sum()
        return -v, -np.r_[-a + Q.sum(1), -b + Q.sum(0), mm - Q.sum()]

    x0 = np.zeros(n + k + 1)
    x0[-1] = reg * (np.log(mm) - np.log(np.exp(-(M - M.min()) / reg).sum())) + M.min()
    r = minimize(neg, x0, jac=True, method="L-BFGS-B", bounds=[(0, None)] * (n + k) + [(None, None)],
                 options=dict(maxiter=4000, maxfun=8000, ftol=1e-16, gtol=1e-13))
    s = abs(up) + scale * mm + reg * mm
    mon.le("entropic-optimal", up + r.fun, 1e-5 * s, method)
    mon.le("entropic-lower-bound", -r.fun - up, 1e-5 * s, "not below the dual value")


def path(x, y, p):
    """Optimal cost of the partial assignment of every size (sorted samples match in order)."""
    x, y = np.sort(x), np.sort(y)
    n, m = len(x), len(y)
    K = min(n, m)
    D = np.full((n + 1, m + 1, K + 1), np.inf)
    D[:, :, 0] = 0
    for i in range(1, n + 1):
        for j in range(1, m + 1):
            D[i, j] = np.minimum(D[i - 1, j], D[i, j - 1])
            D[i, j, 1:] = np.minimum(D[i, j, 1:], D[i - 1, j - 1, :-1] + abs(x[i - 1] - y[j - 1]) ** p)
    return D[n, m]


@core.family(FAMILIES, 900)
def line(mon, rng, idx):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    kind = gen.pick(rng, ("gauss", "far", "integers", "disjoint", "clusters", "tiny"))
    if kind == "integers":
        x, y = rng.integers(-4, 5, n).astype(float), rng.integers(-4, 5, m).astype(float)
        mon.event("path-with-ties")
    elif kind == "clusters":
        c = rng.normal(size=3) * 10
        x, y = c[rng.integers(3, size=n)] + rng.normal(size=n), c[rng.integers(3, size=m)] + rng.normal(size=m)
    else:
        x, y = rng.normal(size=n), rng.normal(size=m)
        if kind == "far":
            y = y + 5
        if kind == "disjoint":
            x, y = -np.abs(x), np.abs(y)
        if kind == "tiny":
            x, y = x * 1e-5, y * 1e-5
    p = gen.pick(rng, (1, 2, 1.5, 3, 1.0))
    if p == 1.5:
        mon.event("fractional-power")
    K = min(n, m)
    t = None if rng.random() < 0.5 else int(rng.integers(1, K + 4))
    k = K if t is None else min(t, K)
    mon.case(x, y, n=n, m=m, p=p, t=t, kind=kind, nontrivial=K > 1)
    xs = (x[:, None] if rng.random() < 0.2 else x).copy()
    x0, y0 = xs.copy(), y.copy()
    ix, iy, costs = ot.partial.partial_wasserstein_1d(xs, y, n_transported_samples=t, p=p)
    mon.true("inputs-intact", np.array_equal(xs, x0) and np.array_equal(y, y0))
    ok = len(ix) == len(iy) == len(costs) == k
    mon.true("path-shape", ok, "%d, %d, %d for %d" % (len(ix), len(iy), len(costs), k))
    if not ok:
        return
    ok = len(set(ix)) == k and len(set(iy)) == k and min(ix) >= 0 and min(iy) >= 0
    mon.true("path-nested", ok, "indices of distinct samples")
    if not ok:
        return
    best = path(x, y, p)
    s = best[-1] + (np.abs(x).max() + np.abs(y).max()) ** p + 1e-300
    cum = np.r_[0, np.cumsum(costs)]
    real = [0.0] + [float(np.sum(np.abs(np.sort(x[ix[:j]]) - np.sort(y[iy[:j]])) ** p)) for j in range(1, k + 1)]
    mon.close("path-truthful", cum, np.array(real), 1e-9 * s, 0, "cumulated marginal costs are those of the selected samples")
    mon.close("path-optimal", np.array(real), best[:k + 1], 1e-9 * s)
