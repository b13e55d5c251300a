"""Closed-form 1D OT.  The oracle is an independent north-west-corner sweep of the sorted
samples (the optimal plan for every convex cost on the line), cross-checked by an exact LP
on the small cases.  Every slice of a batch, both solver families (sweep and quantile
merge), plan output in each format, dual potentials and metric axioms are monitored.
Non-trivial: at least two distinct atoms on one side; distinct by array hash."""

import numpy as np

import ot
from vt import core, gen, oracles

FAMILIES = {}
BACKENDS = ("torch",)
REQUIRED = ("emd_1d-cost", "w1d-value", "w1d-plan-cost", "dual-gap", "triangle")


def sample(rng, n, kind=None):
    kind = kind or gen.pick(rng, ("gauss", "ties", "dupes", "spread", "shifted", "sorted"))
    if kind == "gauss":
        x = rng.normal(size=n)
    elif kind == "ties":
        x = rng.integers(-2, 3, size=n).astype(float)
    elif kind == "dupes":
        x = rng.normal(size=max(1, n // 3))[rng.integers(0, max(1, n // 3), size=n)]
    elif kind == "spread":
        x = np.sign(rng.normal(size=n)) * 10.0 ** rng.uniform(-4, 3, size=n)
    elif kind == "shifted":
        x = 50 + rng.random(n)
    else:
        x = np.sort(rng.normal(size=n))
    return x


def dims(rng, hi):
    n, m = int(rng.integers(1, hi)), int(rng.integers(1, hi))
    if rng.random() < 0.2:
        m = n
    return n, m


def ref(x, y, a, b, p):
    P = oracles.monotone_plan(x, y, a, b)
    D = np.abs(x[:, None] - y[None]) ** p
    return float((P * D).sum()), D


@core.family(FAMILIES, 3000)
def emd1d(mon, rng, idx):
    n, m = dims(rng, 30)
    x, y = sample(rng, n), sample(rng, m)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock", "minkowski"))
    p = float(gen.pick(rng, (1.0, 1.3, 2.0, 3.0)))
    pw = {"sqeuclidean": 2.0, "minkowski": p}.get(metric, 1.0)
    uni = rng.random() < 0.25
    if uni:
        a, b = np.full(n, 1 / n), np.full(m, 1 / m)
    mass = float(gen.pick(rng, (1.0, 1.0, 3.7, 1e-2)))
    mon.case(x, y, a, b, n=n, m=m, metric=metric, p=p, mass=mass, nontrivial=n + m > 2)
    aa, bb = (None, None) if uni and rng.random() < 0.7 else (a * mass, b * mass)
    if aa is None:
        mass = 1.0
    v, D = ref(x, y, a * mass, b * mass, pw)
    tol = 1e-13 * (n + m) * (D.max() + 1e-9) * mass
    k = int(rng.integers(3))
    xi, yi = (x, y) if k == 0 else (x[:, None], y[:, None]) if k == 1 else (list(x), list(y))
    G, log = ot.emd_1d(xi, yi, aa, bb, metric=metric, p=p, log=True)
    G = np.asarray(G)
    mon.close("emd_1d-cost", float(log["cost"]), v, tol)
    mon.true("emd_1d-shape", G.shape == (n, m))
    mon.le("emd_1d-plan-marginals", oracles.marg_err(G, a * mass, b * mass), 1e-13 * (n + m) * mass)
    mon.le("emd_1d-plan-nonneg", -G.min(), 1e-15 * mass)
    mon.close("emd_1d-plan-cost", float((G * D).sum()), v, tol)
    Gs = ot.emd_1d(xi, yi, aa, bb, metric=metric, p=p, dense=False)
    mon.close("emd_1d-sparse", Gs.toarray(), G, 1e-15 * mass)
    r, c = np.asarray(log["perms_x_a"]), np.asarray(log["perms_x_b"])
    mon.true("emd_1d-perms", set(zip(*np.nonzero(G))) <= set(zip(r.tolist(), c.tolist())),
             "non-zero entries not listed in the log")
    mon.close("emd2_1d", float(ot.emd2_1d(xi, yi, aa, bb, metric=metric, p=p)), v, tol)
    v2, l2 = ot.emd2_1d(xi, yi, aa, bb, metric=metric, p=p, log=True)
    mon.close("emd2_1d-log", np.asarray(l2["G"]), G, 1e-15 * mass)
    # monotone: sorted supports never cross
    ii, jj = np.nonzero(G > 1e-12 * mass)
    o = np.lexsort((y[jj], x[ii]))
    xs, ys = x[ii][o], y[jj][o]
    bad = [(k, l) for k in range(len(xs)) for l in range(k) if xs[l] < xs[k] and ys[l] > ys[k]]
    mon.true("monotone", not bad, lambda: "crossing assignment %s" % (bad[:2],))
    if n * m <= 60:
        lp, _ = oracles.lp_transport(a * mass, b * mass * (a.sum() / b.sum()), D)
        if lp is not None:
            mon.close("emd_1d-vs-LP", v, lp, 1e-8 * (D.max() + 1e-9) * mass + tol)


@core.family(FAMILIES, 3000)
def w1d(mon, rng, idx):
    n, m = dims(rng, 30)
    k = int(rng.integers(1, 5))
    x = np.stack([sample(rng, n) for _ in range(k)], 1)
    y = np.stack([sample(rng, m) for _ in range(k)], 1)
    wk = gen.pick(rng, ("none", "1d", "2d", "mixed"))
    a = np.stack([gen.weights(rng, n) for _ in range(k)], 1)
    b = np.stack([gen.weights(rng, m) for _ in range(k)], 1)
    if wk in ("none", "mixed"):
        a = np.full((n, k), 1 / n)
    if wk == "none":
        b = np.full((m, k), 1 / m)
    if wk == "1d":
        a, b = np.repeat(a[:, :1], k, 1), np.repeat(b[:, :1], k, 1)
    aa = None if wk in ("none", "mixed") else a[:, 0] if wk == "1d" else a
    bb = None if wk == "none" else b[:, 0] if wk == "1d" else b
    p = float(gen.pick(rng, (1, 1, 2, 1.5, 3)))
    mon.case(x, y, a, b, n=n, m=m, k=k, p=p, weights=wk)
    refs, Ds = zip(*[ref(x[:, c], y[:, c], a[:, c], b[:, c], p) for c in range(k)])
    tol = 1e-13 * (n + m) * max(1e-9, max(D.max() for D in Ds))
    w = np.asarray(ot.wasserstein_1d(x, y, aa, bb, p=p))
    mon.close("w1d-value", w, np.array(refs), tol)
    w, plans = ot.lp.wasserstein_1d(x, y, aa, bb, p=p, return_plans=True)
    mon.close("w1d-value-with-plans", np.asarray(w), np.array(refs), tol)
    w, tup = ot.lp.wasserstein_1d(x, y, aa, bb, p=p, return_plans="coo_tuple")
    mon.close("w1d-value-with-plans", np.asarray(w), np.array(refs), tol)
    mon.true("w1d-one-plan-per-slice", len(plans) == k and len(tup) == k)
    for c in range(min(k, len(plans))):
        G = plans[c].toarray()
        mon.le("w1d-plan-marginals", oracles.marg_err(G, a[:, c], b[:, c]), 1e-13 * (n + m))
        mon.le("w1d-plan-nonneg", -G.min(), 1e-15)
        mon.close("w1d-plan-cost", float((G * Ds[c]).sum()), refs[c], tol)
        T = np.zeros((n, m))
        np.add.at(T, (np.asarray(tup[c].rows), np.asarray(tup[c].cols)), np.asarray(tup[c].data))
        mon.close("w1d-tuple=coo", T, G, 1e-15)
    # 1D input equals the one-column batch; pre-sorted input equals unsorted input
    w0 = ot.wasserstein_1d(x[:, 0], y[:, 0], a[:, 0], b[:, 0], p=p)
    mon.close("w1d-flat", np.asarray(w0), np.array(refs[0]), tol)
    ox, oy = np.argsort(x, 0), np.argsort(y, 0)
    t = np.take_along_axis
    ws = ot.wasserstein_1d(t(x, ox, 0), t(y, oy, 0), t(a, ox, 0), t(b, oy, 0), p=p, require_sort=False)
    mon.close("w1d-presorted", np.asarray(ws), np.array(refs), tol)
    # metric axioms and equivariances of W_p
    wr = np.asarray(ot.wasserstein_1d(y, x, bb, aa, p=p))
    mon.close("symmetric", wr, np.array(refs), tol)
    mon.true("non-negative", np.all(w >= 0))
    pi = rng.permutation(n)
    ws = np.asarray(ot.wasserstein_1d(x, x[pi], a, a[pi], p=p))
    mon.le("zero-on-equal", ws.max(), tol)
    s, sh = float(rng.normal()), float(rng.normal() * 3)
    ws = np.asarray(ot.wasserstein_1d(s * x + sh, s * y + sh, aa, bb, p=p))
    mon.close("affine-equivariant", ws, np.abs(s) ** p * np.array(refs),
              tol * (1 + np.abs(s) ** p) * 10 + 1e-12 * (abs(sh) + np.abs(x).max() + np.abs(y).max()) ** p)
    ws = np.asarray(ot.wasserstein_1d(x, x + sh, a, a, p=p))
    mon.close("translation-distance", ws, np.full(k, abs(sh) ** p),
              1e-12 * (n + 1) * (abs(sh) + np.ptp(x) + 1) ** p + 1e-13 * np.abs(x).max())


@core.family(FAMILIES, 800)
def triangle(mon, rng, idx):
    ns = rng.integers(1, 15, size=3)
    X = [sample(rng, int(n)) for n in ns]
    W = [gen.weights(rng, int(n)) for n in ns]
    p = float(gen.pick(rng, (1, 1.5, 2, 4)))
    mon.case(*X, *W, p=p, ns=str(ns))
    d = lambda i, j: max(0.0, float(ot.wasserstein_1d(X[i], X[j], W[i], W[j], p=p))) ** (1 / p)
    sc = max(np.abs(x).max() for x in X) + 1e-6
    mon.le("triangle", d(0, 2) - d(0, 1) - d(1, 2), 1e-9 * sc + (1e-13 * 50) ** (1 / p) * sc * 2)


@core.family(FAMILIES, 500)
def quantiles(mon, rng, idx):
    """quantile_function is the left-continuous inverse of the cdf."""
    n, k = int(rng.integers(1, 12)), int(rng.integers(1, 4))
    xs = np.sort(rng.normal(size=(n, k)), 0)
    w = rng.integers(0, 5, size=(n, k)).astype(float)
    w[int(rng.integers(n))] += 1
    cw = np.cumsum(w, 0) / 64.0
    qs = rng.integers(0, int(w.sum(0).max()) + 3, size=(7, k)) / 64.0 + gen.pick(rng, (0.0, 1 / 128))
    mon.case(xs, cw, qs, n=n, k=k)
    got, ix = ot.lp.solver_1d.quantile_function(qs, cw, xs, return_index=True)
    exp = np.empty_like(qs)
    for c in range(k):
        for i in range(7):
            hit = [j for j in range(n) if cw[j, c] >= qs[i, c]]
            exp[i, c] = xs[hit[0] if hit else n - 1, c]
    mon.close("quantile", np.asarray(got), exp, 0.0)
    mon.close("quantile-index", np.take_along_axis(xs, np.asarray(ix), 0), exp, 0.0)


@core.family(FAMILIES, 600)
def duals(mon, rng, idx):
    import torch

    n, m = dims(rng, 15)
    k = int(rng.integers(1, 4))
    # ties make the cdfs non-differentiable; generic data only
    x, y = rng.normal(size=(n, k)), rng.normal(size=(m, k))
    a = np.stack([gen.weights(rng, n, "dirichlet") for _ in range(k)], 1)
    b = np.stack([gen.weights(rng, m, "dirichlet") for _ in range(k)], 1)
    p = float(gen.pick(rng, (1, 2, 3)))
    mon.case(x, y, a, b, n=n, m=m, k=k, p=p)
    T = torch.tensor
    f, g, loss = ot.lp.solver_1d.emd_1d_dual_backprop(T(x), T(y), T(a), T(b), p=p)
    f, g, loss = f.numpy(), g.numpy(), loss.numpy()
    for c in range(k):
        v, D = ref(x[:, c], y[:, c], a[:, c], b[:, c], p)
        mon.close("dual-loss", loss[c], v, 1e-12 * D.max())
        mon.close("dual-gap", f[:, c] @ a[:, c] + g[:, c] @ b[:, c], v, 1e-11 * (n + m) * D.max())
        mon.le("dual-feasible", (f[:, c][:, None] + g[:, c][None] - D).max(), 1e-11 * (n + m) * D.max())
