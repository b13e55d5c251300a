"""Batched solvers and losses (ot.batch).  Every item of a batch is judged alone: linear plans against
the check's own log-domain entropic plan of that item, Gromov plans by replaying the documented
proximal step with a brute-force four-index gradient, values and losses by their formula at the
returned plan (vector-valued structures, both losses).  The same batch is solved again item by item,
in another order, next to other problems of very different scale and padded with weightless points:
an item's solution may not change."""

import numpy as np

import ot
from ot import batch as tb
from ot.batch._linear import dist_euclidean_batch, dist_kl_batch, dist_lp_batch
from vt import core, gen, oracles
from vt.checks.c15 import quiet
from vt.checks.c16 import entropic_plan

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("linear-plan", "linear-value", "marginals", "alone", "order", "padding", "potentials", "distance", "sample-route", "projection",
            "linear-loss", "entropy", "gromov-step", "gromov-value", "gromov-alone", "gromov-order", "gromov-padding", "gromov-loss", "gromov-fixed",
            "refused", "budget")
REQUIRED_EVENTS = ("log_sinkhorn", "sinkhorn", "kl-value", "converged", "vector-structure", "kl-structure", "logits", "asymmetric", "fused", "default-weights",
                   "own-start", "mixed-scales")


def weights(rng, B, n, k=None):
    return np.stack([gen.weights(rng, n, k, positive=True) for _ in range(B)])


def sizes(rng):
    return int(rng.integers(1, 6)), int(rng.integers(1, 8)), int(rng.integers(1, 8))


def neg_entropy(P):
    return float(np.sum(P[P > 0] * np.log(P[P > 0])))


@core.family(FAMILIES, 300, weight=2)
def linear(mon, rng, idx):
    B, n, m = sizes(rng)
    mixed = rng.random() < 0.5
    M = np.stack([gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "random", "ties", "constant", "signed"))) for _ in range(B)])
    M = M / max(1e-9, np.abs(M).max())
    if mixed and B > 1:
        M = M * (10 ** rng.uniform(-2, 0.5, B))[:, None, None]
        mon.event("mixed-scales")
    reg = float(10 ** rng.uniform(-1, 0.7))
    a, b = weights(rng, B, n), weights(rng, B, m)
    kw = dict(solver=gen.pick(rng, ("log_sinkhorn", "log_sinkhorn", "sinkhorn")), reg_type=gen.pick(rng, ("entropy", "KL", "kl", "Entropy")),
              max_iter=20001, tol=1e-12, grad=gen.pick(rng, ("envelope", "detach", "autodiff")))
    if rng.random() < 0.2:
        kw.pop("solver")
    given = rng.random() < 0.8
    if not given:
        a, b = np.full((B, n), 1 / n), np.full((B, m), 1 / m)
        mon.event("default-weights")
    w = dict(a=a, b=b) if given else {}
    mon.case(M, a, b, B=B, n=n, m=m, reg=reg, kw=str(kw), mixed=mixed, given=given, nontrivial=B > 1 and n > 1 and m > 1)
    keep = [x.copy() for x in (M, a, b)]
    res = quiet(tb.solve_batch, M, reg, **w, **kw)
    mon.true("inputs-intact", all(np.array_equal(x, y) for x, y in zip(keep, (M, a, b))))
    mon.event(kw.get("solver", "log_sinkhorn"))
    T = np.asarray(res.plan)
    if not mon.true("linear-plan", T.shape == (B, n, m) and bool(np.isfinite(T).all()) and bool((T >= 0).all())):
        return
    mon.close("marginals", np.asarray(res.marginal_a), T.sum(2), 1e-14, 1e-12)
    mon.close("marginals", np.asarray(res.marginal_b), T.sum(1), 1e-14, 1e-12)
    conv = res.log["n_iter"] < 20000
    s = float(np.abs(M).max()) + reg
    u, v = (np.asarray(x) for x in res.potentials)
    K = -M / reg
    R = np.exp(K + u[:, :, None] + v[:, None]) if kw.get("solver") != "sinkhorn" else np.exp(K) * u[:, :, None] * v[:, None]
    mon.close("potentials", R, T, 1e-12, 1e-8)
    for i in range(B):
        lin = float(np.sum(T[i] * M[i]))
        mon.close("linear-value", float(res.value_linear[i]), lin, 1e-10 * s, 1e-9)
        kl = kw["reg_type"].lower() == "kl"
        R = neg_entropy(T[i])
        if kl:
            mon.event("kl-value")
            R = float(np.sum(np.where(T[i] > 0, T[i] * np.log(np.maximum(T[i], 1e-300) / np.outer(a[i], b[i])), 0.0)))
        mon.close("linear-value", float(res.value[i]), lin + reg * R, 1e-9 * s + 1e-12 * reg * n * m, 1e-9, kw["reg_type"])
        if conv:
            mon.event("converged")
            S = entropic_plan(a[i], b[i], M[i], reg)
            if S is not None:
                mon.close("linear-plan", T[i], S, 1e-8, 1e-6)
    if conv and B > 1:
        i = int(rng.integers(B))
        alone = quiet(tb.solve_batch, M[i:i + 1], reg, **{k: x[i:i + 1] for k, x in w.items()}, **kw)
        mon.close("alone", np.asarray(alone.plan)[0], T[i], 1e-9, 1e-6)
        mon.close("alone", float(alone.value[0]), float(res.value[i]), 1e-8 * s, 1e-8)
        p = rng.permutation(B)
        other = quiet(tb.solve_batch, M[p], reg, **{k: x[p] for k, x in w.items()}, **kw)
        mon.close("order", np.asarray(other.plan), T[p], 1e-12, 1e-9)
        mon.close("order", np.asarray(other.value), np.asarray(res.value)[p], 1e-11 * s, 1e-10)
    if rng.random() < 0.4:
        kw2 = dict(kw, max_iter=1 + 10 * int(rng.integers(1, 4)), tol=float(10 ** rng.uniform(-6, -2)))
        r = quiet(tb.solve_batch, M, reg, **w, **kw2)
        Q = np.asarray(r.plan)
        if r.log["n_iter"] < kw2["max_iter"] - 1:
            mon.le("budget", float(np.sqrt(((Q.sum(2) - a) ** 2).sum(1)).max()), kw2["tol"] * 1.0001, "stopped before the cap: every item satisfies the tolerance")
        mon.le("budget", float(np.abs(Q.sum(1) - b).max()), 1e-10, "last scaling matches the columns")


@core.family(FAMILIES, 120)
def padding(mon, rng, idx):
    B, n, m = sizes(rng)
    e, f = int(rng.integers(0, 4)), int(rng.integers(1, 4))
    M = rng.random((B, n, m)) * (10 ** rng.uniform(-1, 0.5, B))[:, None, None]
    a, b = weights(rng, B, n), weights(rng, B, m)
    reg = float(10 ** rng.uniform(-0.7, 0.5))
    kw = dict(solver=gen.pick(rng, ("log_sinkhorn", "sinkhorn")), reg_type=gen.pick(rng, ("entropy", "kl")), max_iter=5001, tol=1e-12)
    mon.case(M, a, b, e=e, f=f, kw=str(kw), reg=reg, B=B, n=n, m=m)
    M2 = rng.random((B, n + e, m + f)) * 3
    M2[:, :n, :m] = M
    a2, b2 = np.zeros((B, n + e)), np.zeros((B, m + f))
    a2[:, :n], b2[:, :m] = a, b
    r1, r2 = quiet(tb.solve_batch, M, reg, a, b, **kw), quiet(tb.solve_batch, M2, reg, a2, b2, **kw)
    T = np.asarray(r2.plan)
    if not mon.true("padding", bool(np.isfinite(T).all())):
        return
    mon.close("padding", T[:, :n, :m], np.asarray(r1.plan), 1e-9, 1e-6)
    mon.le("padding", float(max(np.abs(T[:, n:]).max(initial=0), np.abs(T[:, :, m:]).max(initial=0))), 0.0, "weightless points carry nothing")
    mon.close("padding", np.asarray(r2.value), np.asarray(r1.value), 1e-8 * (3 + reg), 1e-7)
    mon.close("padding", np.asarray(r2.value_linear), np.asarray(r1.value_linear), 1e-8 * (3 + reg), 1e-7)


def simplex(rng, shape):
    X = rng.random(shape) + 0.02
    return X / X.sum(-1, keepdims=True)


@core.family(FAMILIES, 160)
def distances(mon, rng, idx):
    B, n, m = sizes(rng)
    d = int(rng.integers(1, 5))
    X = np.stack([gen.points(rng, n, d) for _ in range(B)]) * (10 ** rng.uniform(-2, 2, B))[:, None, None]
    Y = np.stack([gen.points(rng, m, d) for _ in range(B)])
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "minkowski", "kl"))
    p = float(gen.pick(rng, (1.0, 2.0, 3.0, 1.5)))
    if metric == "kl":
        X, Y = simplex(rng, (B, n, d)), simplex(rng, (B, m, d))
    same = rng.random() < 0.15
    mon.case(X, Y, B=B, n=n, m=m, d=d, metric=metric, p=p, same=same)
    kw = dict(metric=gen.pick(rng, (metric, metric.upper())), p=p)
    if metric == "sqeuclidean" and rng.random() < 0.3:
        kw.pop("metric")
    D = np.asarray(quiet(tb.dist_batch, X, None if same else Y, **kw))
    Z = X if same else Y
    diff = X[:, :, None] - Z[:, None]
    s = float(np.abs(X).max() + np.abs(Z).max()) ** 2
    if metric == "sqeuclidean":
        W, tol = (diff ** 2).sum(-1), 1e-13 * s
    elif metric == "euclidean":
        W, tol = np.sqrt((diff ** 2).sum(-1)), 1e-6 * np.sqrt(s)
    elif metric == "minkowski":
        W, tol = (np.abs(diff) ** p).sum(-1) ** (1 / p), 1e-12 * np.sqrt(s)
    else:
        W, tol = (Z[:, None] * np.log(Z[:, None] / X[:, :, None])).sum(-1), 1e-7
    mon.close("distance", D, W, tol, 1e-9, metric)
    mon.true("distance", D.shape == W.shape and bool((D >= (-1e-7 if metric == "kl" else 0)).all()), "shape and sign")
    q = float(gen.pick(rng, (1.0, 2.0, 3.0)))
    mon.close("distance", np.asarray(dist_lp_batch(X, Y, p=p, q=q)), (np.abs(X[:, :, None] - Y[:, None]) ** p).sum(-1) ** (q / p), 1e-12 * s ** (q / 2), 1e-9, "lp")
    mon.close("distance", np.asarray(quiet(dist_euclidean_batch, X, Y, squared=True)), ((X[:, :, None] - Y[:, None]) ** 2).sum(-1), 1e-13 * s, 1e-9)
    if metric == "kl":
        mon.event("logits")
        mon.close("distance", np.asarray(dist_kl_batch(np.log(X), Y, logits_X=True)), (Y[:, None] * np.log(Y[:, None] / X[:, :, None])).sum(-1), 1e-7, 1e-7, "logits")
    for i in range(B):
        if metric in ("sqeuclidean", "euclidean"):
            mon.close("distance", np.asarray(ot.dist(X[i], Z[i], metric)), W[i], tol + 1e-13 * s, 1e-9, "single problem")
    a, b = weights(rng, B, n), weights(rng, B, Z.shape[1])
    sc = float(D.max()) + 1e-3
    reg = sc * float(10 ** rng.uniform(-0.5, 0.5))
    st = dict(max_iter=int(gen.pick(rng, (11, 501))), tol=float(gen.pick(rng, (1e-9, 1e-3))), solver=gen.pick(rng, ("log_sinkhorn", "sinkhorn")),
              reg_type=gen.pick(rng, ("entropy", "kl")))
    if not same:
        r1 = quiet(tb.solve_sample_batch, X, Y, reg, a, b, **kw, **st)
        r2 = quiet(tb.solve_batch, D, reg, a, b, **st)
        mon.close("sample-route", np.asarray(r1.plan), np.asarray(r2.plan), 1e-12, 1e-9)
        mon.close("sample-route", np.asarray(r1.value), np.asarray(r2.value), 1e-9 * (sc + reg), 1e-9)
        T = rng.random((B, n, m))
        lm = metric
        if lm != "minkowski":
            mon.close("linear-loss", np.asarray(tb.loss_linear_samples_batch(X, Y, T, metric=lm)), (D * T).sum((1, 2)), 1e-9 * sc, 1e-9)
        mon.close("linear-loss", np.asarray(tb.loss_linear_samples_batch(X, Y, T)), (((X[:, :, None] - Y[:, None]) ** 2).sum(-1) * T).sum((1, 2)), 1e-12 * s * n * m, 1e-9)
        mon.close("linear-loss", np.asarray(tb.loss_linear_batch(D, T)), (D * T).sum((1, 2)), 1e-9 * sc, 1e-9)
        mon.close("entropy", np.asarray(tb.entropy_batch(T)), -(T * np.log(T + 1e-16)).sum((1, 2)), 1e-9, 1e-9)


@core.family(FAMILIES, 160)
def projection(mon, rng, idx):
    B, n, m = sizes(rng)
    log = rng.random() < 0.5
    K = rng.normal(size=(B, n, m)) * float(10 ** rng.uniform(-1, 0.7))
    a, b = weights(rng, B, n), weights(rng, B, m)
    given = rng.random() < 0.75
    if not given:
        a, b = np.full((B, n), 1 / n), np.full((B, m), 1 / m)
    w = dict(a=a, b=b) if given else {}
    it = int(gen.pick(rng, (1, 2, 5, 20001)))
    mon.case(K, a, b, log=log, it=it, given=given, B=B, n=n, m=m)
    f = tb.bregman_log_projection_batch if log else tb.bregman_projection_batch
    out = quiet(f, K if log else np.exp(K), max_iter=it, tol=1e-13, **w)
    T = np.asarray(out["T"])
    u, v = (np.asarray(x) for x in out["potentials"])
    R = np.exp(K + u[:, :, None] + v[:, None]) if log else np.exp(K) * u[:, :, None] * v[:, None]
    mon.close("projection", T, R, 1e-12, 1e-8, "diagonal scaling")
    mon.close("projection", T.sum(1), b, 1e-10, 1e-8, "columns")
    if log:
        mon.close("projection", np.exp(np.asarray(out["log_T"])), T, 1e-13, 1e-10)
    if it > 10 and out["n_iters"] < it - 1:
        mon.event("converged")
        for i in range(B):
            S = entropic_plan(a[i], b[i], -K[i], 1.0)
            if S is not None:
                mon.close("projection", T[i], S, 1e-9, 1e-6)
    elif it <= 10:
        # the documented alternation, replayed
        g = np.zeros((B, m))
        for _ in range(it):
            h = np.log(a) - np.log(np.exp(K + g[:, None]).sum(2))
            g = np.log(b) - np.log(np.exp(K + h[:, :, None]).sum(1))
        mon.close("projection", T, np.exp(K + h[:, :, None] + g[:, None]), 1e-11, 1e-8, "iterations replayed")


def pair(C1, C2, loss):
    """L[i, k, j, l] = loss(C1[i, k], C2[j, l]) for vector-valued structures."""
    x, y = C1[:, :, None, None], C2[None, None]
    if loss == "sqeuclidean":
        return ((x - y) ** 2).sum(-1)
    if loss == "logits":
        return (y * (np.log(y) - x)).sum(-1)
    return (y * np.log(y / x)).sum(-1)


def structures(mon, rng, B, n, m, loss, sym):
    d = int(rng.integers(2, 4)) if loss == "kl" else int(gen.pick(rng, (0, 0, 1, 3)))
    def one(k):
        if loss == "kl":
            C = simplex(rng, (B, k, k, d))
        else:
            C = rng.normal(size=(B, k, k) + ((d,) if d else ()))
        if sym:
            C = (C + C.swapaxes(1, 2)) / 2
        return C
    if d:
        mon.event("vector-structure")
    return one(n), one(m), d


def lift(C):
    return C if C.ndim == 4 else C[..., None]


@core.family(FAMILIES, 260, weight=3)
def gromov(mon, rng, idx):
    B, n, m = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    loss = gen.pick(rng, ("sqeuclidean", "sqeuclidean", "kl"))
    sym = bool(rng.random() < 0.5)
    C1, C2, d = structures(mon, rng, B, n, m, loss, sym)
    logits = bool(rng.random() < 0.5) if loss == "kl" else None
    if not sym:
        mon.event("asymmetric")
    if loss == "kl":
        mon.event("kl-structure")
    mode = "logits" if logits else loss
    if logits:
        C1 = np.log(C1)
    a, b = weights(rng, B, n), weights(rng, B, m)
    fused = rng.random() < 0.5
    al = float(rng.random()) if fused else 1.0
    M = rng.random((B, n, m)) if fused else np.zeros((B, n, m))
    L = [pair(lift(C1)[i], lift(C2)[i], mode) for i in range(B)]
    s = max(float(np.abs(x).max()) for x in L) + 1.0
    reg = s * float(10 ** rng.uniform(-0.4, 0.7))
    given = rng.random() < 0.8
    if not given:
        a, b = np.full((B, n), 1 / n), np.full((B, m), 1 / m)
        mon.event("default-weights")
    k = int(gen.pick(rng, (1, 1, 2, 3, 80)))
    kw = dict(reg=reg, loss=loss, symmetric=gen.pick(rng, (None, sym, False)), max_iter=k, tol=0.0 if k < 10 else 1e-9, max_iter_inner=4001 if k < 10 else 300, tol_inner=1e-12,
              logits=logits, grad=gen.pick(rng, ("envelope", "detach", "autodiff")))
    w = dict(a=a, b=b) if given else {}
    if fused:
        mon.event("fused")
        w.update(M=M, alpha=al)
    T0 = a[:, :, None] * b[:, None]
    own = rng.random() < 0.4
    if own:
        mon.event("own-start")
        T0 = np.stack([0.5 * T0[i] + 0.5 * oracles.monotone_plan(rng.normal(size=n), rng.normal(size=m), a[i], b[i]) for i in range(B)])
        w["T_init"] = T0.copy()
    mon.case(C1, C2, a, b, M, T0, B=B, n=n, m=m, loss=mode, sym=sym, al=al, reg=reg, kw=str(kw), own=own, given=given, nontrivial=n > 1 and m > 1)
    keep = [x.copy() for x in (C1, C2, a, b, M, T0)]
    res = quiet(tb.solve_gromov_batch, C1, C2, **w, **kw)
    mon.true("inputs-intact", all(np.array_equal(x, y) for x, y in zip(keep, (C1, C2, a, b, M, T0))) and (not own or np.array_equal(w["T_init"], T0)))
    T = np.asarray(res.plan)
    if not mon.true("gromov-value", T.shape == (B, n, m) and bool(np.isfinite(T).all())):
        return
    mon.close("marginals", np.asarray(res.marginal_a), T.sum(2), 1e-14, 1e-12)
    mon.close("marginals", np.asarray(res.marginal_b), T.sum(1), 1e-14, 1e-12)

    def D(i, X):
        return (1 - al) * M[i] + al * (np.einsum("ikjl,kl->ij", L[i], X) + np.einsum("kilj,kl->ij", L[i], X))

    def step(i, X):
        with np.errstate(divide="ignore"):
            return entropic_plan(a[i], b[i], D(i, X) - reg * np.log(X + 1e-15), reg, it=2000)

    for i in range(B):
        lin, quad = float(np.sum(M[i] * T[i])), float(np.einsum("ikjl,ij,kl->", L[i], T[i], T[i]))
        mon.close("gromov-value", float(res.value_linear[i]), (1 - al) * lin, 1e-9 * s, 1e-9, "linear")
        mon.close("gromov-value", float(res.value_quad[i]), al * quad, 1e-8 * s, 1e-8, "quadratic " + mode)
        mon.close("gromov-value", float(res.value[i]), (1 - al) * lin + al * quad, 1e-8 * s, 1e-8)
        if k < 10:
            X = T0[i]
            for _ in range(k):
                X = step(i, X)
                if X is None:
                    break
            if X is not None and oracles.marg_err(T[i], a[i], b[i]) < 1e-10:
                mon.close("gromov-step", T[i], X, 1e-7, 1e-4, "proximal steps replayed")
        elif res.log["n_iter"] < k - 1 and oracles.marg_err(T[i], a[i], b[i]) < 1e-9:
            mon.event("converged")
            X = step(i, T[i])
            if X is not None:
                mon.close("gromov-fixed", T[i], X, 1e-6, 0)
    if B > 1 and k < 10:
        i = int(rng.integers(B))
        one = {x: (y[i:i + 1] if x != "alpha" else y) for x, y in w.items()}
        # symmetry is tested over the whole batch, and the general formula covers both
        r1 = quiet(tb.solve_gromov_batch, C1[i:i + 1], C2[i:i + 1], **one, **kw)
        mon.close("gromov-alone", np.asarray(r1.plan)[0], T[i], 1e-8, 1e-5)
        mon.close("gromov-alone", float(r1.value[0]), float(res.value[i]), 1e-8 * s, 1e-7)
        p = rng.permutation(B)
        r2 = quiet(tb.solve_gromov_batch, C1[p], C2[p], **{x: (y[p] if x != "alpha" else y) for x, y in w.items()}, **kw)
        mon.close("gromov-order", np.asarray(r2.plan), T[p], 1e-12, 1e-9)
        mon.close("gromov-order", np.asarray(r2.value), np.asarray(res.value)[p], 1e-12 * s, 1e-10)


@core.family(FAMILIES, 120)
def gromov_loss(mon, rng, idx):
    B, n, m = int(rng.integers(1, 5)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
    loss = gen.pick(rng, ("sqeuclidean", "sqeuclidean", "kl"))
    sym = bool(rng.random() < 0.5)
    C1, C2, d = structures(mon, rng, B, n, m, loss, sym)
    logits = bool(rng.random() < 0.5) if loss == "kl" else None
    mode = "logits" if logits else loss
    if logits:
        C1 = np.log(C1)
    a, b = weights(rng, B, n), weights(rng, B, m)
    free = rng.random() < 0.5
    T = rng.random((B, n, m)) if free else np.stack([oracles.monotone_plan(rng.normal(size=n), rng.normal(size=m), a[i], b[i]) for i in range(B)])
    flag = gen.pick(rng, (None, False, sym))
    mon.case(C1, C2, a, b, T, loss=mode, sym=sym, free=free, flag=str(flag), B=B, n=n, m=m)
    want = np.array([np.einsum("ikjl,ij,kl->", pair(lift(C1)[i], lift(C2)[i], mode), T[i], T[i]) for i in range(B)])
    s = float(np.abs(want).max()) + 1.0
    got = quiet(tb.loss_quadratic_samples_batch, a, b, C1, C2, T, loss=loss, symmetric=flag, logits=logits, recompute_const=free)
    mon.close("gromov-loss", np.asarray(got), want, 1e-9 * s, 1e-9, mode)
    Lt = tb.tensor_batch(a, b, C1, C2, symmetric=bool(flag), loss=loss, logits=logits)
    got = quiet(tb.loss_quadratic_batch, Lt, T, recompute_const=free, symmetric=bool(flag))
    mon.close("gromov-loss", np.asarray(got), want, 1e-9 * s, 1e-9, mode + " tensor")
    if loss == "sqeuclidean" and not d:
        i = int(rng.integers(B))
        G = T[i] / T[i].sum()
        g = float(quiet(tb.loss_quadratic_samples_batch, a[i:i + 1], b[i:i + 1], C1[i:i + 1], C2[i:i + 1], G[None], symmetric=flag, recompute_const=True)[0])
        mon.close("gromov-loss", g, float(np.einsum("ikjl,ij,kl->", pair(lift(C1)[i], lift(C2)[i], mode), G, G)), 1e-9 * s, 1e-9, "normalised plan")


@core.family(FAMILIES, 60)
def gromov_padding(mon, rng, idx):
    B, n, m = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
    e, f = int(rng.integers(0, 3)), int(rng.integers(1, 3))
    C1, C2 = rng.random((B, n, n)), rng.random((B, m, m))
    a, b = weights(rng, B, n), weights(rng, B, m)
    D1, D2 = rng.random((B, n + e, n + e)), rng.random((B, m + f, m + f))
    D1[:, :n, :n], D2[:, :m, :m] = C1, C2
    a2, b2 = np.zeros((B, n + e)), np.zeros((B, m + f))
    a2[:, :n], b2[:, :m] = a, b
    fused = rng.random() < 0.5
    M2 = rng.random((B, n + e, m + f))
    reg = float(10 ** rng.uniform(-0.5, 0.5))
    kw = dict(reg=reg, max_iter=int(gen.pick(rng, (1, 5))), tol=0.0, max_iter_inner=3001, tol_inner=1e-12)
    k1 = dict(M=M2[:, :n, :m], alpha=0.4) if fused else {}
    k2 = dict(M=M2, alpha=0.4) if fused else {}
    mon.case(D1, D2, a, b, M2, fused=fused, reg=reg, kw=str(kw), e=e, f=f)
    r1, r2 = quiet(tb.solve_gromov_batch, C1, C2, a=a, b=b, **k1, **kw), quiet(tb.solve_gromov_batch, D1, D2, a=a2, b=b2, **k2, **kw)
    T = np.asarray(r2.plan)
    if not mon.true("gromov-padding", bool(np.isfinite(T).all()), "finite with weightless points"):
        return
    mon.close("gromov-padding", T[:, :n, :m], np.asarray(r1.plan), 1e-7, 1e-4)
    mon.le("gromov-padding", float(max(np.abs(T[:, n:]).max(initial=0), np.abs(T[:, :, m:]).max(initial=0))), 1e-12)
    mon.close("gromov-padding", np.asarray(r2.value), np.asarray(r1.value), 1e-7, 1e-5)


@core.family(FAMILIES, 20)
def refusals(mon, rng, idx):
    M, C, X = rng.random((2, 3, 3)), rng.random((2, 3, 3)), rng.random((2, 3, 2))
    k = idx % 7
    mon.case(M, k=k)
    mon.raises("refused", (
        lambda: tb.dist_batch(X, X, metric="cosine2"), lambda: tb.solve_batch(M, 1.0, solver="sinkhorn3"), lambda: tb.solve_batch(M, 1.0, reg_type="l3"),
        lambda: tb.solve_gromov_batch(C, C, loss=3), lambda: tb.solve_gromov_batch(C, C, M=M), lambda: tb.solve_gromov_batch(C, C, M=M[:, :2], alpha=0.5),
        lambda: tb.solve_gromov_batch(C, C, M=M, alpha=1.5))[k], (ValueError, NotImplementedError), "case %d" % k)
