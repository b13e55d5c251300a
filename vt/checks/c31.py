"""Cost matrices, projections and helpers are compared with their mathematical definition, evaluated independently of the code.

Pairwise costs are recomputed entry by entry from the coordinates (each metric from its formula, in extended precision), their zero
diagonal and symmetry are checked on self distances and every optional form (p, weights, tensorised, scipy backend, sparse sums over
index lists) against the same reference.  A projection onto the (sparse) simplex is judged by what makes a point nearest: feasibility and
the optimality conditions of the Euclidean problem, exhaustively over supports for the sparse one; the semidefinite projection by its
variational inequality.  Lazy tensors are compared with the dense tensor on randomly drawn slices, reductions, batch sizes and ranks.
Histograms, label encodings, data generators (moments and group structure), scalers, cost normalisations and parameter helpers are
compared with their documented contracts.
"""
import inspect
import itertools
import warnings

import numpy as np
from scipy.spatial.distance import cdist

import ot
from ot import utils as u
from vt import core, gen

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("distance", "self-distance", "scipy-backend", "sparse-distance", "kernel", "simplex", "simplex-optimal", "sparse-simplex", "sparse-optimal",
            "psd", "psd-nearest", "exp-bures", "lazy-slice", "lazy-reduce", "lazy-lowrank", "scaler", "scaler-round", "normalization", "labels",
            "histogram", "dataset", "helpers", "estimator", "refused", "inputs-intact", "result")
REQUIRED_EVENTS = ("ties", "large-values", "constant-feature", "weighted", "tensorised", "max_nz-beyond", "batched-psd", "jagged-batch", "same-array",
                   "negative-offset", "float32")


def intact(mon, pairs):
    mon.true("inputs-intact", all(np.array_equal(x, y) for x, y in pairs))


def reference(x1, x2, metric, p, w):
    X, Y = x1.astype(np.longdouble)[:, None], x2.astype(np.longdouble)[None]
    D = np.abs(X - Y)
    if metric == "sqeuclidean":
        return (D ** 2).sum(-1)
    if metric == "euclidean":
        return np.sqrt((D ** 2).sum(-1))
    if metric == "cityblock":
        return D.sum(-1)
    if metric == "minkowski":
        return ((D ** p * (1 if w is None else w)).sum(-1)) ** (1 / np.longdouble(p))
    if metric == "chebyshev":
        return D.max(-1)
    if metric == "canberra":
        s = np.abs(X) + np.abs(Y)
        return np.divide(D, s, out=np.zeros_like(D), where=s > 0).sum(-1)
    if metric == "braycurtis":
        return D.sum(-1) / np.abs(X + Y).sum(-1)
    if metric == "hamming":
        return (D > 0).mean(-1)
    if metric == "correlation":
        X, Y = X - X.mean(-1, keepdims=True), Y - Y.mean(-1, keepdims=True)
    return 1 - (X * Y).sum(-1) / np.sqrt((X ** 2).sum(-1)) / np.sqrt((Y ** 2).sum(-1))


METRICS = ("sqeuclidean", "euclidean", "cityblock", "minkowski", "cosine", "correlation")
MORE = ("chebyshev", "canberra", "braycurtis", "hamming")


def cloud(mon, rng, n, d, metric):
    kind = rng.integers(4)
    x = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-3, 3)
    if kind == 0:
        x = rng.integers(-2, 3, (n, d)).astype(float)
        if metric in ("cosine", "correlation", "braycurtis"):
            x = x + 0.1 * np.arange(1, d + 1)
        mon.event("ties")
    elif kind == 1:
        x = x + x.std() * 10
    elif kind == 2 and n > 1:
        x[rng.integers(n)] = x[0]
    return np.ascontiguousarray(x)


@core.family(FAMILIES, 500)
def distances(mon, rng, idx):
    metric = gen.pick(rng, METRICS + METRICS + MORE)
    n, m, d = int(rng.integers(1, 8)), int(rng.integers(1, 8)), int(rng.integers(1, 5))
    if metric == "correlation":
        d = max(d, 3)
    x1, x2 = cloud(mon, rng, n, d, metric), cloud(mon, rng, m, d, metric)
    same = rng.random() < 0.35
    if same:
        x2 = x1
        mon.event("same-array")
    p = float(gen.pick(rng, (1, 1.5, 2, 3)))
    w = rng.random(d) if metric == "minkowski" and rng.random() < 0.5 else None
    tens = bool(rng.random() < 0.4)
    form = int(rng.integers(3)) if same else 1
    x1, x2 = gen.layout(rng, x1), (x2 if same else gen.layout(rng, x2))
    if w is not None:
        mon.event("weighted")
    if tens:
        mon.event("tensorised")
    mon.case(x1, x2, metric=metric, p=p, w=None if w is None else str(w), tens=tens, form=form, nontrivial=n > 1 and m > 1)
    keep = (x1.copy(), x2.copy())
    kw = dict(metric=metric, p=p, w=w)
    D = ot.dist(x1, **kw, use_tensor=tens) if form == 0 else ot.dist(x1, x1, **kw, use_tensor=tens) if form == 2 else ot.dist(x1, x1.copy() if same else x2, **kw, use_tensor=tens)
    y = x1 if same else x2
    R = reference(keep[0], keep[1] if not same else keep[0], metric, p, w).astype(float)
    s = float(np.abs(x1).max() + np.abs(y).max())
    # cancellation in |x|^2 - 2xy + |y|^2 is inherent to the fast form
    tol = {"sqeuclidean": 1e-13 * s ** 2, "euclidean": 3e-7 * s, "correlation": 1e-9, "cosine": 1e-12}.get(metric, 1e-12 * s if metric != "canberra" else 1e-9)
    mon.close("distance", D, R, tol + 1e-300, 1e-11, "%s p=%g" % (metric, p))
    mon.true("distance", bool((np.asarray(D) >= -(1e-9 if metric in ("cosine", "correlation") else 0.0)).all()), "negative " + metric)
    if metric == "euclidean":
        mon.close("distance", np.asarray(D) ** 2, R ** 2, 1e-13 * s ** 2 + 1e-300, 1e-11, "squared euclidean")
    if same:
        z = np.abs(np.diag(np.asarray(D)))
        exact = metric in ("cityblock", "minkowski", "chebyshev", "canberra", "hamming") or (metric in ("sqeuclidean", "euclidean") and form != 1)
        mon.le("self-distance", float(z.max()), 0.0 if exact else tol + 1e-12, "%s diagonal" % metric)
        mon.close("self-distance", D, np.asarray(D).T, tol, 1e-9, "symmetry")
    if metric in METRICS or metric in MORE:
        kz = dict(metric=metric, p=p) if metric == "minkowski" else dict(metric=metric)
        if w is not None:
            kz["w"] = w
        mon.close("scipy-backend", ot.dist(x1, None if form == 0 and same else y, backend="scipy", **kz), R, tol, 1e-9, metric)
    if metric in ("sqeuclidean", "euclidean"):
        mon.close("distance", u.euclidean_distances(x1, y, squared=metric == "sqeuclidean"), R, tol, 1e-11, "euclidean_distances")
    intact(mon, zip((x1, y), (keep[0], keep[0] if same else keep[1])))


@core.family(FAMILIES, 150)
def distance_values(mon, rng, idx):
    """callables, other scipy metrics, integer data and single precision"""
    n, m, d = int(rng.integers(1, 6)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    k = idx % 4
    x, y = rng.normal(size=(n, d)), rng.normal(size=(m, d))
    if k == 0:
        mon.case(x, y, k=k)
        mon.close("distance", ot.dist(x, y, metric=lambda p, q: float(np.abs(p - q).max() + p[0])), np.abs(x[:, None] - y).max(-1) + x[:, :1], 1e-13, 0, "callable")
    elif k == 1:
        x, y = rng.random((n, d)) < 0.5, rng.random((m, d)) < 0.5
        me = gen.pick(rng, ("jaccard", "dice", "rogerstanimoto", "russellrao", "yule"))
        mon.case(x, y, k=k, me=me)
        a, b = x[:, None], y[None]
        tt, tf, ft, ff = (a & b).sum(-1), (a & ~b).sum(-1), (~a & b).sum(-1), (~a & ~b).sum(-1)
        r = tf + ft
        with np.errstate(all="ignore"):
            R = {"jaccard": r / (tt + r), "dice": r / (2 * tt + r), "rogerstanimoto": 2 * r / (tt + ff + 2 * r), "russellrao": (d - tt) / d,
                 "yule": np.where(tf * ft == 0, 0, 2 * tf * ft / (tt * ff + tf * ft))}[me]
        D = ot.dist(x, y, metric=me)
        ok = np.isfinite(R) & (tt + r > 0)
        mon.close("distance", D[ok], R[ok], 1e-12, 0, me)
    elif k == 2:
        x, y = rng.integers(-5, 6, (n, d)), rng.integers(-5, 6, (m, d))
        me = gen.pick(rng, METRICS[:4])
        mon.case(x, y, k=k, me=me)
        mon.close("distance", ot.dist(x, y, metric=me, p=3), reference(x.astype(float), y.astype(float), me, 3, None).astype(float), 1e-12, 1e-12, "integers " + me)
    else:
        mon.event("float32")
        x, y = x.astype(np.float32), y.astype(np.float32)
        me = gen.pick(rng, METRICS[:4])
        mon.case(x, y, k=k, me=me)
        D = ot.dist(x, y, metric=me, p=2)
        mon.true("distance", D.dtype == np.float32, "precision " + me)
        mon.close("distance", D ** 2, reference(x, y, me, 2, None).astype(float) ** 2, 1e-4, 1e-4, me)


@core.family(FAMILIES, 150)
def sparse_distances(mon, rng, idx):
    n, m, d, k = int(rng.integers(1, 8)), int(rng.integers(1, 8)), int(rng.integers(1, 4)), int(rng.integers(1, 20))
    metric = gen.pick(rng, METRICS[:4])
    p = float(gen.pick(rng, (1, 1.5, 2, 3)))
    x, y = rng.normal(size=(n, d)), rng.normal(size=(m, d))
    i, j = rng.integers(0, n, k), rng.integers(0, m, k)
    w = rng.random(k) if rng.random() < 0.6 else None
    bs = None if rng.random() < 0.4 else int(rng.integers(1, k + 3))
    mon.case(x, y, i, j, metric=metric, p=p, w=str(w), bs=bs)
    R = reference(x, y, metric, p, None).astype(float)[i, j]
    mon.close("sparse-distance", float(u.sparse_ot_dist(x, y, i, j, w, metric=metric, p=p, batch_size=bs)), float(R @ (w if w is not None else np.full(k, 1 / k))), 1e-12, 1e-10, metric)
    sg = float(10 ** rng.uniform(-1, 1))
    K = u.kernel(x, y, method=gen.pick(rng, ("gaussian", "gauss", "rbf", "RBF")), sigma=sg)
    mon.close("kernel", K, np.exp(-reference(x, y, "sqeuclidean", 2, None).astype(float) / (2 * sg * sg)), 1e-12, 1e-10)
    G = rng.random((n, n))
    G = G + G.T
    L = u.laplacian(G)
    mon.close("helpers", L, np.diag(G.sum(0)) - G, 1e-13, 0, "laplacian")
    mon.le("helpers", float(np.abs(L.sum(0)).max()), 1e-12 * n, "laplacian columns")


def nearest_simplex(mon, name, v, w, z, msg=""):
    """KKT: w >= 0, sum z, v - w = theta on the support and <= theta off it."""
    s = np.abs(v).max() + abs(z)
    t = 1e-12 * s * len(v) + 1e-300
    mon.true("simplex", bool(np.isfinite(w).all() and (w >= 0).all()), msg)
    mon.le("simplex", abs(float(w.sum()) - z), 1e-12 * z * len(v) + 1e-300 + 4e-16 * s * len(v), "total " + msg)
    on = w > 0
    if on.any():
        g = v - w
        mon.le(name, float(np.ptp(g[on])), t, "shift " + msg)
        if (~on).any():
            mon.le(name, float(g[~on].max() - g[on].mean()), t, "support " + msg)


def vectors(mon, rng, n, d):
    v = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-3, 3)
    k = rng.integers(5)
    if k == 0:
        v = rng.integers(-2, 3, (n, d)).astype(float)
        mon.event("ties")
    elif k == 1:
        v = v + 10.0 ** rng.uniform(5, 18)
        mon.event("large-values")
    elif k == 2:
        v = v - 100
        mon.event("negative-offset")
    elif k == 3:
        v = rng.random((n, d))
        v /= v.sum(0)
    return v


@core.family(FAMILIES, 300)
def simplex(mon, rng, idx):
    n, d = int(rng.integers(1, 12)), int(rng.integers(1, 5))
    v = vectors(mon, rng, n, d)
    z = float(gen.pick(rng, (1, 1, 0.3, 2, 50, 1e-3)))
    one = rng.random() < 0.4
    v = gen.layout(rng, v[:, 0] if one else v)
    mon.case(v, z=z)
    keep = v.copy()
    w = u.proj_simplex(v) if z == 1 and rng.random() < 0.5 else u.proj_simplex(v, z)
    intact(mon, [(v, keep)])
    if not mon.true("simplex", w.shape == v.shape):
        return
    for c in ([None] if one else range(d)):
        vv, ww = (keep, w) if c is None else (keep[:, c], w[:, c])
        nearest_simplex(mon, "simplex-optimal", vv, ww, z)
    again = u.proj_simplex(w, z)
    mon.close("simplex-optimal", again, w, 1e-12 * max(z, 1), 0, "idempotent")


def best_sparse(v, k, z):
    """exhaustive search over supports of at most k entries"""
    n, best = len(v), np.inf
    for s in itertools.combinations(range(n), min(k, n)):
        s = list(s)
        y = v[s]
        # water filling by enumeration of its support size
        o = np.sort(y)[::-1]
        c = np.cumsum(o - o[0]) - z
        r = np.nonzero((o - o[0]) - c / np.arange(1, len(o) + 1) > 0)[0][-1] + 1
        th = c[r - 1] / r
        x = np.zeros(n)
        x[s] = np.maximum(y - o[0] - th, 0)
        best = min(best, float(np.sum((x - v) ** 2)))
    return best


@core.family(FAMILIES, 250)
def sparse_simplex(mon, rng, idx):
    n, d = int(rng.integers(1, 8)), int(rng.integers(1, 4))
    v = vectors(mon, rng, n, d)
    k = int(rng.integers(1, n + 3))
    if k > n:
        mon.event("max_nz-beyond")
    axis = gen.pick(rng, (0, 1, None, "vector"))
    many = axis in (0, 1) and rng.random() < 0.4
    zs = 10.0 ** rng.uniform(-1, 1, d) if many else float(10.0 ** rng.uniform(-1, 1))
    V = v.T.copy() if axis == 1 else v[:, 0].copy() if axis == "vector" else v.copy()
    mon.case(V, k=k, axis=axis, z=str(zs))
    keep = V.copy()
    P = u.projection_sparse_simplex(V, k, zs) if axis == "vector" else u.projection_sparse_simplex(V, k, zs, axis=axis)
    intact(mon, [(V, keep)])
    if axis in (0, 1):
        if not mon.true("sparse-simplex", P.shape == V.shape):
            return
        rows = [(keep[:, c] if axis == 0 else keep[c], P[:, c] if axis == 0 else P[c], float(zs[c]) if many else zs) for c in range(d)]
    else:
        rows = [(keep.ravel(), np.asarray(P).ravel(), zs)]
    for x, w, z in rows:
        if not mon.true("sparse-simplex", w.shape == x.shape and bool(np.isfinite(w).all() and (w >= 0).all())):
            continue
        mon.true("sparse-simplex", int((w > 0).sum()) <= k, "cardinality")
        s = np.abs(x).max() + z
        mon.le("sparse-simplex", abs(float(w.sum()) - z), 1e-11 * z + 1e-14 * s, "total")
        if s < 1e7 and len(x) <= 12:
            mon.le("sparse-optimal", float(np.sum((w - x) ** 2)) - best_sparse(x, k, z), 1e-11 * s * s + 1e-300, "nearest")
        if k >= len(x):
            mon.close("sparse-optimal", w, u.proj_simplex(x, z), 1e-11 * s, 1e-10, "whole simplex")


@core.family(FAMILIES, 150)
def semidefinite(mon, rng, idx):
    d, b = int(rng.integers(1, 6)), int(rng.integers(0, 4))
    S = rng.normal(size=(b, d, d) if b else (d, d)) * 10.0 ** rng.uniform(-2, 2)
    S = S + np.swapaxes(S, -1, -2)
    if b:
        mon.event("batched-psd")
    v = float(gen.pick(rng, (0.0, 0.0, 0.1, 2.0)))
    mon.case(S, v=v)
    keep = S.copy()
    P = u.proj_SDP(S) if v == 0.0 else u.proj_SDP(S, vmin=v)
    intact(mon, [(S, keep)])
    if not mon.true("psd", P.shape == S.shape):
        return
    for A, B in zip(keep.reshape(-1, d, d), P.reshape(-1, d, d)):
        s = np.abs(A).max() + v
        mon.close("psd", B, B.T, 1e-12 * s, 0, "symmetric")
        mon.le("psd", v - float(np.linalg.eigvalsh((B + B.T) / 2).min()), 1e-11 * s, "eigenvalues")
        for _ in range(3):
            Z = rng.normal(size=(d, d))
            Z = v * np.eye(d) + Z @ Z.T * s
            mon.le("psd-nearest", float(np.sum((A - B) * (Z - B))), 1e-10 * s * s * d * d + 1e-10 * np.abs(Z).max() * s * d, "variational inequality")
        mon.close("psd-nearest", float(np.sum((A - B) * (B - v * np.eye(d)))), 0.0, 1e-10 * s * s * d * d, 0, "complementarity")
    Sg = rng.normal(size=(d, d))
    Sg = Sg @ Sg.T
    T = keep.reshape(-1, d, d)[0]
    E = u.exp_bures(Sg, T)
    mon.close("exp-bures", E, (np.eye(d) + T) @ Sg @ (np.eye(d) + T), 1e-10 * (1 + np.abs(T).max()) ** 2 * np.abs(Sg).max() * d * d, 1e-9)


def key(rng, shape):
    out = []
    for n in shape:
        k = rng.integers(4)
        if k == 0:
            out.append(int(rng.integers(0, n)))
        elif k == 1:
            i, j = sorted(rng.integers(0, n + 1, 2))
            out.append(slice(int(i), int(j)))
        elif k == 2:
            out.append(slice(None))
        else:
            out.append(slice(None, None, 2) if rng.random() < 0.5 else slice(int(-rng.integers(1, n + 1)), None))
    c = int(rng.integers(1, len(out) + 1))
    return out[0] if c == 1 and rng.random() < 0.5 else tuple(out[:c])


@core.family(FAMILIES, 300)
def lazy(mon, rng, idx):
    n, m, r = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 4))
    Q, R, g = rng.normal(size=(n, r)), rng.normal(size=(m, r)), rng.normal(size=r)
    form = int(idx % 4)
    if form == 0:
        T, D = u.get_lowrank_lazytensor(Q, R), Q @ R.T
    elif form == 1:
        T, D = u.get_lowrank_lazytensor(Q, R, g), (Q * g) @ R.T
    elif form == 2:
        D = rng.normal(size=(n, m, r))
        T = u.LazyTensor(D.shape, lambda i, j, k, D: D[i, j, k], D=D)
        mon.true("lazy-slice", T.D is D, "attribute")
    else:
        D = rng.normal(size=(n, m))
        T = u.LazyTensor(D.shape, lambda i, j: D[i, j])
    mon.case(D, form=form)
    mon.true("lazy-slice", tuple(T.shape) == D.shape and T.ndim == D.ndim)
    for _ in range(6):
        k = key(rng, D.shape)
        got, want = np.asarray(T[k]), np.asarray(D[k])
        mon.true("lazy-slice" if form > 1 else "lazy-lowrank", got.shape == want.shape, "shape %s of %s" % (got.shape, k))
        mon.close("lazy-slice" if form > 1 else "lazy-lowrank", got, want, 1e-12, 0, str(k))
    bs = int(gen.pick(rng, (1, 2, 3, 100)))
    if max(n, m) % bs:
        mon.event("jagged-batch")
    ax = gen.pick(rng, (None, 0, 1))
    if ax is None:
        mon.close("lazy-reduce", float(u.reduce_lazytensor(T, np.sum, axis=None, batch_size=bs)), float(D.sum()), 1e-12 * n * m * r, 0)
    else:
        f = gen.pick(rng, (np.sum, np.max))
        mon.close("lazy-reduce", u.reduce_lazytensor(T, f, axis=ax, batch_size=bs), f(D, axis=ax), 1e-12 * n * m, 0, "axis %s batch %d" % (ax, bs))


@core.family(FAMILIES, 150)
def result(mon, rng, idx):
    """OTResult: every view of a plan agrees with it."""
    n, m, r = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 4))
    import scipy.sparse as sp
    Q, R = rng.random((n, r)), rng.random((m, r))
    P = Q @ R.T
    f, g = rng.normal(size=n), rng.normal(size=m)
    form = idx % 3
    bs = int(gen.pick(rng, (1, 2, 100)))
    if form == 1:
        P = P * (rng.random((n, m)) < 0.5)
    kw = ({"plan": P}, {"sparse_plan": sp.coo_matrix(P)}, {"lazy_plan": u.get_lowrank_lazytensor(Q, R), "batch_size": bs})[form]
    val = [float(x) for x in rng.normal(size=3)]
    log = {"x": 1}
    mon.case(P, form=form, bs=bs)
    res = u.OTResult(potentials=(f, g), value=val[0], value_linear=val[1], value_quad=val[2], log=log, status="s", **kw)
    mon.true("result", res.value == val[0] and res.value_linear == val[1] and res.value_quad == val[2] and res.log is log and res.status == "s")
    mon.true("result", res.potential_a is f and res.potential_b is g and res.potentials[0] is f)
    mon.close("result", res.marginal_a, P.sum(1), 1e-12, 1e-12)
    mon.close("result", res.marginal_b, P.sum(0), 1e-12, 1e-12)
    mon.close("result", res.marginals[0], P.sum(1), 1e-12, 1e-12)
    if form < 2:
        mon.close("result", np.asarray(res.plan), P, 1e-15, 0)
        s = res.sparse_plan
        mon.close("result", s.toarray() if sp.issparse(s) else np.asarray(s), P, 1e-15, 0, "sparse")
    else:
        mon.true("result", res.plan is None and res.lazy_plan is kw["lazy_plan"])
    mon.true("result", isinstance(repr(res), str) and u.OTResult().marginals is None and u.OTResult().plan is None)


@core.family(FAMILIES, 200)
def scaler(mon, rng, idx):
    norm = ("standard", "minmax", "l2")[idx % 3]
    n, m, d = int(rng.integers(2, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 5))
    X, Y = rng.normal(size=(n, d)) * 10.0 ** rng.uniform(-3, 3, d) + rng.normal(size=d), rng.normal(size=(m, d))
    const = rng.random() < 0.4
    if const and norm != "l2":
        X[:, 0] = rng.normal()
        mon.event("constant-feature")
    if norm == "l2" and const:
        X[0] = 0
    many = rng.random() < 0.5
    mon.case(X, Y, norm=norm, many=many)
    keep = X.copy(), Y.copy()
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        sc = u.DataScaler(norm)
        fit = [X, Y] if many else X
        Z = sc.fit_transform(fit)
        A = np.concatenate([X, Y]) if many else X
        if norm == "l2":
            nr = np.linalg.norm(A, axis=1, keepdims=True)
            want, wy = A / np.where(nr == 0, 1, nr), Y / np.linalg.norm(Y, axis=1, keepdims=True)
        elif norm == "standard":
            flat = np.ptp(A, axis=0) == 0
            mu, sd = A.mean(0), np.where(flat, 1, A.std(0))
            want, wy = (A - mu) / sd, (Y - mu) / sd
        else:
            lo, hi = A.min(0), A.max(0)
            sd = np.where(hi == lo, 1, hi - lo)
            want, wy = (A - lo) / sd, (Y - lo) / sd
            mon.true("scaler", bool((want >= 0).all() and (want <= 1).all()))
        got = np.concatenate(Z) if many else Z
        mon.close("scaler", got, want, 1e-9, 1e-9, norm)
        # the same map is applied to new data, alone or in a list
        mon.close("scaler-round", sc.transform(Y), wy, 1e-9, 1e-9, norm)
        mon.close("scaler-round", sc.transform([Y, X])[0], wy, 1e-9, 1e-9, norm + " list")
        s, t = u.apply_scaler(X, Y, sc)
        mon.close("scaler-round", t, sc.transform(Y), 0, 0)
        mon.close("scaler-round", s, sc.transform(X), 0, 0)
    s, t = u.apply_scaler(X, Y, lambda z: 2 * z + 1)
    mon.close("scaler-round", s, 2 * X + 1, 0, 0, "callable")
    s, t = u.apply_scaler(X, Y)
    mon.true("scaler-round", s is X and t is Y)
    intact(mon, zip((X, Y), keep))
    k = idx % 4
    mon.raises("refused", (lambda: u.DataScaler("foo"), lambda: u.DataScaler("standard").transform(X), lambda: u.apply_scaler(X, Y, 3),
                           lambda: u.DataScaler("standard").fit([]))[k], (ValueError, RuntimeError), "scaler %d" % k)


@core.family(FAMILIES, 200)
def normalization(mon, rng, idx):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    C = rng.random((n, m)) * 10.0 ** rng.uniform(-3, 3) + 1e-6
    norm = gen.pick(rng, (None, "median", "max", "log", "loglog"))
    value = float(rng.random() + 0.1) if rng.random() < 0.3 else None
    mon.case(C, norm=norm, value=value)
    keep = C.copy()
    N = u.cost_normalization(C, norm, value=value)
    want = {None: keep, "median": keep / (value or np.median(keep)), "max": keep / (value or keep.max()), "log": np.log(1 + keep), "loglog": np.log(1 + np.log(1 + keep))}[norm]
    mon.close("normalization", N, want, 1e-14, 1e-12, str(norm))
    mon.true("inputs-intact", np.array_equal(C, keep), "cost")
    N2, v = u.cost_normalization(C, norm, return_value=True, value=value)
    mon.close("normalization", N2, want, 1e-14, 1e-12)
    if norm in ("median", "max"):
        mon.close("normalization", float(v), value or float(np.median(keep) if norm == "median" else keep.max()), 0, 1e-14, "constant")
        mon.close("normalization", u.cost_normalization(3 * C, norm, value=v), 3 * want, 1e-14, 1e-12, "reuse")
    mon.raises("refused", lambda: u.cost_normalization(C, "foo"), ValueError)
    # zeros of weights
    a, b = gen.weights(rng, n, positive=False), gen.weights(rng, m, positive=False)
    a2, b2, M2 = u.clean_zeros(a, b, C)
    mon.true("histogram", np.array_equal(a2, a[a > 0]) and np.array_equal(b2, b[b > 0]) and np.array_equal(M2, keep[a > 0][:, b > 0]) and M2.flags["C_CONTIGUOUS"] and not np.shares_memory(M2, C))
    q = u.unif(n)
    mon.true("histogram", q.shape == (n,) and abs(q.sum() - 1) < 1e-12 and np.ptp(q) == 0)
    A, B, E = rng.normal(size=(n, m)), rng.normal(size=(m, n)), rng.normal(size=(n, 2))
    mon.close("helpers", u.dots(A, B, E), A @ B @ E, 1e-12, 1e-10, "dots")
    X = A.copy()
    bad = gen.pick(rng, (None, np.nan, np.inf, -np.inf))
    if bad is not None:
        X[rng.integers(n), rng.integers(m)] = bad
    mon.true("helpers", bool(u.is_all_finite(B, X)) == (bad is None), "is_all_finite")
    D0 = u.dist0(n)
    mon.close("helpers", D0, (np.arange(n)[:, None] - np.arange(n)) ** 2, 1e-10 * n * n, 0, "dist0")


@core.family(FAMILIES, 200)
def labels(mon, rng, idx):
    n, c = int(rng.integers(1, 10)), int(rng.integers(1, 5))
    vals = np.sort(rng.choice(np.arange(-5, 12), c, replace=False))
    y = rng.choice(vals, n)
    if rng.random() < 0.4:
        y = y.astype(float)
    start = int(gen.pick(rng, (0, 0, 1, -1, 3)))
    mon.case(y, start=start)
    keep = y.copy()
    z = u.label_normalization(y, start=start)
    mon.true("labels", z.min() == start and np.array_equal(np.diff(z), np.diff(y)) and z.shape == y.shape, "label_normalization")
    for ty in (None, np.zeros(1, np.float32), np.zeros(1)):
        k = u.labels_to_masks(y, type_as=ty)
        un = np.unique(keep)
        mon.true("labels", k.shape == (n, len(un)) and np.array_equal(k.astype(bool), keep[:, None] == un[None]) and k.dtype == (y.dtype if ty is None else ty.dtype), "labels_to_masks")
    intact(mon, [(y, keep)])
    th = rng.random(n)
    th[rng.integers(n)] = gen.pick(rng, (0.0, 0.25, 0.5, 0.75))
    t = u.get_coordinate_circle(np.stack([np.cos(2 * np.pi * th), np.sin(2 * np.pi * th)], 1))
    e = np.abs(t - th)
    mon.true("helpers", bool((t >= 0).all() and (t <= 1).all() and np.minimum(e, 1 - e).max() < 1e-12), "get_coordinate_circle")
    L = u.list_to_array([1.0, 2.0], th)
    mon.true("helpers", isinstance(L[0], np.ndarray) and np.array_equal(L[0], [1.0, 2.0]) and L[1] is th and isinstance(u.list_to_array([[1, 2], [3, 4]]), np.ndarray), "list_to_array")
    mon.true("helpers", u.get_parameter_pair(2.0) == (2.0, 2.0) and u.get_parameter_pair([3]) == (3, 3) and u.get_parameter_pair((1, 2)) == (1, 2), "get_parameter_pair")
    mon.raises("refused", lambda: u.get_parameter_pair((1, 2, 3)), ValueError)
    mon.true("helpers", u.check_number_threads("max") == -1 and u.check_number_threads(None) == -1 and u.check_number_threads(3) == 3)
    mon.raises("refused", lambda: u.check_number_threads(gen.pick(rng, (0, -1, 1.5, "two"))), ValueError, "threads")
    s = int(rng.integers(1000))
    mon.true("helpers", u.check_random_state(s).rand() == u.check_random_state(np.int64(s)).rand() == np.random.RandomState(s).rand())
    rs = np.random.RandomState(0)
    mon.true("helpers", u.check_random_state(rs) is rs and u.check_random_state(None) is np.random.mtrand._rand)
    mon.raises("refused", lambda: u.check_random_state("x"), ValueError, "seed")
    mon.true("helpers", u.parmap(lambda x: x * x, [1, 2, 3]) == [1, 4, 9])
    f = u.fun_to_numpy(np.sin, th, ot.backend.get_backend(th))
    mon.close("helpers", f(th), np.sin(th), 0, 0, "fun_to_numpy")


@core.family(FAMILIES, 60, weight=2)
def datasets(mon, rng, idx):
    n = int(gen.pick(rng, (1, 2, 3, 5, 7, 10, 4000)))
    s = int(rng.integers(2 ** 31))
    kind = ("3gauss", "3gauss2", "gaussrot", "2gauss_prop", "2d", "2d-scalar", "1d", "3Gauss")[idx % 8]
    if kind == "1d":
        m, sg = float(rng.uniform(0, n)), float(10 ** rng.uniform(-0.3, 1.5))
        mon.case(n=n, m=m, sg=sg)
        h = ot.datasets.make_1D_gauss(n, m, sg)
        r = np.exp(-((np.arange(n) - m) ** 2) / (2 * sg * sg))
        mon.close("dataset", h, r / r.sum(), 1e-15, 1e-12)
        return
    if kind.startswith("2d"):
        mu = rng.normal(size=2)
        A = rng.normal(size=(2, 2))
        S = A @ A.T if kind == "2d" else float(10 ** rng.uniform(-1, 1))
        mon.case(mu, n=n, S=str(S), s=s)
        f = lambda g: ot.datasets.make_2D_samples_gauss(n, mu, S, random_state=g)
        x = f(s)
        mon.true("dataset", x.shape == (n, 2) and bool(np.isfinite(x).all()))
        mon.true("dataset", np.array_equal(x, f(s)) and np.array_equal(x, f(np.random.RandomState(s))) and not np.array_equal(x, f(s ^ 1)), "seed")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.close("dataset", ot.datasets.get_2D_samples_gauss(n, mu, S, random_state=s), x, 0, 0, "deprecated alias")
        if n >= 4000:
            C = S if kind == "2d" else S * np.eye(2)
            mon.le("dataset", float(np.abs(np.cov(x.T) - C).max()), 0.25 * np.abs(C).max(), "covariance")
            mon.le("dataset", float(np.abs(x.mean(0) - mu).max()), 6 * np.sqrt(np.abs(C).max() / n), "mean")
        return
    nz, th, p = float(gen.pick(rng, (0.1, 0.5, 1))), float(rng.uniform(-3, 3)), float(rng.random())
    mon.case(n=n, kind=kind, nz=nz, th=th, p=p, s=s)
    f = lambda g: ot.datasets.make_data_classif(kind, n, nz=nz, theta=th, p=p, random_state=g)
    x, y = f(s)
    mon.true("dataset", x.shape == (n, 2) and y.shape == (n,) and y.dtype.kind == "i" and bool(np.isfinite(x).all()), "%s of %s" % (x.shape, n))
    x2, y2 = f(np.random.RandomState(s))
    mon.true("dataset", np.array_equal(x, x2) and np.array_equal(y, y2), "seed")
    if kind == "3gauss":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mon.close("dataset", ot.datasets.get_data_classif(kind, n, nz=nz, theta=th, random_state=s)[0], x, 0, 0, "deprecated alias")
    if n >= 4000:
        low = kind.lower()
        if low == "2gauss_prop":
            mon.le("dataset", abs(float(y.mean()) - p), 1e-3, "proportion")
            M = {1: [0, 1], 0: [0, 3]}
            sd = {0: nz, 1: nz}
        elif low == "gaussrot":
            rot = np.array([[np.cos(th), np.sin(th)], [-np.sin(th), np.cos(th)]])
            M = {1: np.array([-1, 1]) @ rot, 2: np.array([1, -1]) @ rot}
            sd = {1: np.sqrt(nz), 2: np.sqrt(nz)}
        elif low == "3gauss":
            M, sd = {1: [-1, -1], 2: [-1, 1], 3: [1, 0]}, {1: 1.5 * nz, 2: 1.5 * nz, 3: 2 * nz}
        else:
            M, sd = {1: [-2, -2], 2: [-2, 2], 3: [2, 0]}, {1: nz, 2: nz, 3: 2 * nz}
        mon.true("dataset", set(np.unique(y)) <= set(M) and (p < 0.01 or p > 0.99 or len(np.unique(y)) == len(M)))
        for k in np.unique(y):
            z = x[y == k]
            if len(z) > 100:
                mon.le("dataset", float(np.abs(z.mean(0) - M[k]).max()), 6 * sd[k] / np.sqrt(len(z)), "class mean")
                mon.le("dataset", float(np.abs(z.std(0) / sd[k] - 1).max()), 6 / np.sqrt(len(z)), "class spread")


ESTIMATORS = [c for _, c in sorted(inspect.getmembers(ot.da, inspect.isclass)) if issubclass(c, u.BaseEstimator) and c is not u.BaseEstimator]


@core.family(FAMILIES, 40)
def estimators(mon, rng, idx):
    """get_params/set_params give back and change exactly the constructor's parameters."""
    cls = ESTIMATORS[idx % len(ESTIMATORS)]
    names = [p for p in inspect.signature(cls.__init__).parameters if p not in ("self", "kwargs", "args")]
    mon.case(cls=cls.__name__, i=idx)
    try:
        e = cls()
    except TypeError:
        raise core.Skip
    P = e.get_params()
    mon.true("estimator", set(names) <= set(P), cls.__name__)
    for k in names:
        if hasattr(e, k):
            mark = object() if not isinstance(P[k], (int, float, bool)) else (P[k] or 0) + 1
            e.set_params(**{k: mark})
            mon.true("estimator", getattr(e, k) is mark or getattr(e, k) == mark, k)
            mon.true("estimator", e.get_params()[k] == mark)
    mon.true("estimator", e.set_params() is e)
    mon.raises("refused", lambda: e.set_params(foo=1), ValueError)
    mon.raises("refused", lambda: e.set_params(foo__bar=1), ValueError)


@core.family(FAMILIES, 20)
def refusals(mon, rng, idx):
    x, y = rng.random((3, 2)), rng.random((4, 2))
    k = idx % 7
    mon.case(k=k, i=idx)
    T = u.get_lowrank_lazytensor(x, y)
    mon.raises("refused", (lambda: ot.dist(x, y, metric="foo"), lambda: u.kernel(x, y, method="foo"), lambda: u.projection_sparse_simplex(np.ones((2, 2, 2)), 1, axis=0),
                           lambda: u.sparse_ot_dist(x, y, np.array([0]), np.array([0, 1])), lambda: u.sparse_ot_dist(x, y, np.array([0]), np.array([0]), metric="foo"),
                           lambda: u.reduce_lazytensor(T, np.sum, axis=2), lambda: T["a"])[k], (ValueError, AssertionError, NotImplementedError), "case %d" % k)
