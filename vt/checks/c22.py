"""Domain adaptation.  Each estimator is fitted on random clouds with custom weights and labels, then
its coupling, images and labels are recomputed outside of POT: couplings against the weights and an
independent solver (HiGHS, log-domain Sinkhorn, own objective along iterations), training images as
barycentres of the coupling, new samples by an own nearest-neighbour rule or by the softmax read off
the coupling (far samples and any batch size included), labels as convex combinations, parameters
and inputs compared bitwise before and after fit."""

import copy
import inspect
import warnings

import numpy as np
from scipy.special import softmax

import ot
from vt import core, gen, oracles
from vt.checks.c16 import entropic_plan

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("coupling-marginals", "coupling-optimal", "transform-train", "transform-new", "batching", "inverse-train", "inverse-new", "labels-forward",
            "labels-backward", "labels-convex", "parameters-intact", "input-intact", "fit-transform", "refit", "label-forbids", "label-only-raises", "linear-map",
            "descent", "documented-value", "majorisation", "jcpot-columns", "jcpot-map", "iteration-limit")
REQUIRED_EVENTS = ("emd", "sinkhorn-continuous", "sinkhorn-ferradans", "lpl1", "l1l2", "laplace", "unbalanced", "jcpot", "mapping", "linear", "far-sample",
                   "missing-labels", "custom-weights", "normed", "zero-weight-sample")


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return fn(*a, **k)


class Weights:
    """A distribution estimation that returns stored weights by sample count."""

    def __init__(self, X1, w1, X2, w2):
        self.t = [(X1, w1), (X2, w2)]

    def __call__(self, X):
        for Y, w in self.t:
            if Y.shape == X.shape and np.array_equal(Y, X):
                return w.copy()
        return np.ones(len(X)) / len(X)


def clouds(mon, rng, n, m, d):
    Xs, Xt = rng.normal(size=(n, d)), rng.normal(size=(m, d)) * rng.uniform(0.3, 2) + rng.uniform(0, 2, d)
    ys, yt = rng.integers(0, 3, n), rng.integers(0, 3, m)
    return Xs, Xt, ys, yt


def params(e):
    names = [p for p in inspect.signature(type(e).__init__).parameters if p != "self"]
    return {k: copy.copy(getattr(e, k)) for k in names if hasattr(e, k)}


def same(p, q):
    return p.keys() == q.keys() and all(p[k] is q[k] or p[k] == q[k] for k in p if k != "distribution_estimation")


KINDS = ("emd", "sinkhorn-continuous", "sinkhorn-ferradans", "lpl1", "l1l2", "laplace", "unbalanced")


def build(rng, kind, W, norm, metric, log):
    reg = float(10 ** rng.uniform(-0.7, 0.7))
    c = dict(distribution_estimation=W, norm=norm, metric=metric, log=log)
    if kind == "emd":
        return ot.da.EMDTransport(**c), reg
    if kind.startswith("sinkhorn"):
        m = "sinkhorn_log" if kind.endswith("continuous") else gen.pick(rng, ("sinkhorn_log", "sinkhorn", "sinkhorn_stabilized"))
        return ot.da.SinkhornTransport(reg_e=reg, method=m, max_iter=20000, tol=1e-11, out_of_sample_map=kind.split("-")[1], **c), reg
    if kind == "lpl1":
        return ot.da.SinkhornLpl1Transport(reg_e=reg, reg_cl=reg * rng.uniform(0, 0.5), max_iter=5, max_inner_iter=20000, tol=1e-11, **c), reg
    if kind == "l1l2":
        return ot.da.SinkhornL1l2Transport(reg_e=reg, reg_cl=reg * rng.uniform(0, 0.5), max_iter=5, max_inner_iter=20000, tol=1e-11, **c), reg
    if kind == "laplace":
        return ot.da.EMDLaplaceTransport(reg_type=gen.pick(rng, ("pos", "disp")), reg_lap=float(10 ** rng.uniform(-2, 0)), reg_src=float(rng.random()),
                                         similarity=gen.pick(rng, ("knn", "gauss")), max_iter=30, **c), reg
    return ot.da.UnbalancedSinkhornTransport(reg_e=reg, reg_m=float(10 ** rng.uniform(-1, 1)), max_iter=2000, tol=1e-12, **c), reg


def normed(C, norm):
    if norm is None:
        return C, lambda D: D
    if norm == "median":
        v = np.median(C)
        return C / v, lambda D: D / v
    if norm == "max":
        v = C.max()
        return C / v, lambda D: D / v
    f = (lambda D: np.log(1 + D)) if norm == "log" else (lambda D: np.log(1 + np.log(1 + D)))
    return f(C), f


def bary(P, Y):
    s = P.sum(1)
    return np.where(s[:, None] > 0, P @ Y / np.where(s > 0, s, 1)[:, None], 0.0)


def nearest(D):
    """Index of the nearest, or None when ambiguous."""
    o = np.argsort(D, axis=1)
    i = o[:, 0]
    if D.shape[1] > 1:
        r = np.arange(len(D))
        amb = D[r, o[:, 1]] - D[r, i] < 1e-9 * (1 + D.max())
        return i, ~amb
    return i, np.ones(len(D), bool)


@core.family(FAMILIES, 420, weight=2)
def estimators(mon, rng, idx):
    kind = KINDS[idx % len(KINDS)]
    n, m, d = int(rng.integers(4, 12)), int(rng.integers(4, 12)), int(rng.integers(1, 4))
    Xs, Xt, ys, yt = clouds(mon, rng, n, m, d)
    zero = kind in ("emd", "sinkhorn-continuous", "unbalanced") and rng.random() < 0.3
    a, b = gen.weights(rng, n, positive=not zero), gen.weights(rng, m, positive=not zero)
    if kind not in ("emd", "laplace"):
        a, b = np.where(a > 0, a + 0.05 / n, 0), np.where(b > 0, b + 0.05 / m, 0)
        a, b = a / a.sum(), b / b.sum()
    if (a == 0).any() or (b == 0).any():
        mon.event("zero-weight-sample")
    norm = gen.pick(rng, (None, None, "median", "max", "log", "loglog"))
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock")) if kind != "laplace" else "sqeuclidean"
    if norm:
        mon.event("normed")
    W = Weights(Xs, a, Xt, b)
    mon.event("custom-weights")
    log = bool(rng.random() < 0.5)
    e, reg = build(rng, kind, W, norm, metric, log)
    mon.event(kind)
    mon.case(Xs, Xt, ys, a, b, kind=kind, norm=str(norm), metric=metric, **{k: v for k, v in params(e).items() if isinstance(v, (int, float, bool)) })
    p0, i0 = params(e), [x.copy() for x in (Xs, ys, Xt, a, b)]
    quiet(e.fit, Xs=Xs, ys=ys, Xt=Xt)
    mon.true("parameters-intact", same(p0, params(e)), f"fit changed the parameters of the estimator: {p0} -> {params(e)}")
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(i0, (Xs, ys, Xt, a, b))), "fit changed its inputs")
    P = np.asarray(e.coupling_)
    if not mon.finite("finite", P, f"{kind} coupling"):
        return
    C, fn = normed(ot.dist(Xs, Xt, metric=metric), norm)
    mon.close("cost", e.cost_, C, atol=1e-9 * (1 + C.max()), rtol=1e-9, msg="stored cost")
    mon.true("nonnegative", (P >= 0).all(), "negative coupling")
    if kind != "unbalanced":
        mon.le("coupling-marginals", oracles.marg_err(P, a, b), 1e-6, f"{kind}: marginals of the coupling")
    if kind == "emd":
        mon.le("coupling-optimal", float(np.sum(P * C)) - oracles.lp_transport(a, b, C)[0], 1e-8 * (1 + C.max()), "EMD coupling is not optimal")
    elif kind.startswith("sinkhorn"):
        Q = entropic_plan(a, b, C, reg)
        if Q is not None:
            mon.close("coupling-optimal", P, Q, atol=1e-6, rtol=0, msg="coupling is not the entropic plan of the stored cost")
    elif kind == "unbalanced":
        U = quiet(ot.unbalanced.sinkhorn_unbalanced, a, b, C, reg, e.reg_m, numItermax=2000, stopThr=1e-12)
        mon.close("coupling-optimal", P, U, atol=1e-7, rtol=1e-6, msg="coupling is not the unbalanced plan of the stored cost")
    elif kind in ("lpl1", "l1l2"):
        u = np.unique(ys)

        def J(G, eta):
            S = [G[ys == c] for c in u]
            pen = sum(((s.sum(0) + 1e-3) ** 0.5).sum() for s in S) if kind == "lpl1" else sum(np.linalg.norm(s, axis=0).sum() for s in S)
            return float(np.sum(G * C)) + reg * float(np.sum(G[G > 0] * np.log(G[G > 0]))) + eta * float(pen)

        f = ot.da.sinkhorn_lpl1_mm if kind == "lpl1" else ot.da.sinkhorn_l1l2_gl
        vals = [J(quiet(f, a, ys, b, C, reg, eta=e.reg_cl, numItermax=k, numInnerItermax=20000, stopInnerThr=1e-12), e.reg_cl) for k in (1, 2, 4, 8)]
        s = 1 + abs(vals[0]) + C.max()
        mon.le("majorisation", max(y - x for x, y in zip(vals, vals[1:])), 1e-7 * s, f"{kind}: the documented objective increases along the iterations {vals}")
        mon.le("descent", J(P, e.reg_cl) - vals[0], 1e-7 * s, "the estimator's coupling is worse than one iteration")
    elif kind == "laplace":
        laplace(mon, e, P, C, Xs, Xt, a, b, log)
    # training samples
    T = quiet(e.transform, Xs=Xs)
    ref = bary(P, Xt)
    ok = P.sum(1) > 1e-12
    sc = np.abs(Xt).max() + np.abs(Xs).max()
    mon.close("transform-train", T[ok], ref[ok], atol=(1e-9 if kind != "sinkhorn-continuous" else 1e-5) * (1 + sc), rtol=0, msg=f"{kind}: image of the training samples is not the barycentre under the coupling")
    okt = P.sum(0) > 1e-12
    mon.close("inverse-train", quiet(e.inverse_transform, Xt=Xt)[okt], bary(P.T, Xs)[okt], atol=(1e-9 if kind != "sinkhorn-continuous" else 1e-5) * (1 + sc), rtol=0, msg=f"{kind}: inverse image of the training samples")
    # new samples, in any batches
    k = int(rng.integers(1, 9))
    Z = rng.normal(size=(k, d)) * (1 if rng.random() < 0.7 else 300)
    Z[0] = Xs[0]
    if np.abs(Z).max() > 50:
        mon.event("far-sample")
    B = int(gen.pick(rng, (1, 2, 3, 128)))
    T = quiet(e.transform, Xs=Z, batch_size=B)
    I = quiet(e.inverse_transform, Xt=Z, batch_size=B)
    mon.true("batching", np.shape(T) == Z.shape and np.shape(I) == Z.shape, "shape of the image of new samples")
    mon.close("batching", quiet(e.transform, Xs=Z, batch_size=k + 5), T, atol=1e-9 * (1 + np.abs(Z).max()), rtol=1e-9, msg="image depends on the batch size")
    mon.close("batching", quiet(e.inverse_transform, Xt=Z, batch_size=k + 5), I, atol=1e-9 * (1 + np.abs(Z).max()), rtol=1e-9, msg="inverse image depends on the batch size")
    if kind == "sinkhorn-continuous":
        with np.errstate(all="ignore"):
            L = np.log(P) + C / reg
        i, j = np.unravel_index(P.argmax(), P.shape)
        g, f = L[i], L[:, j]
        g = np.where(P[i] > 1e-200, g, -np.inf)
        f = np.where(P[:, j] > 1e-200, f, -np.inf)
        if (P[i, b > 0] > 1e-200).all():
            mon.close("transform-new", T, softmax(g[None] - fn(ot.dist(Z, Xt, metric=metric)) / reg, axis=1) @ Xt, atol=1e-4 * (1 + sc), rtol=0, msg="entropic map of new samples")
        if (P[a > 0, j] > 1e-200).all():
            mon.close("inverse-new", I, softmax(f[None] - fn(ot.dist(Z, Xs, metric=metric)) / reg, axis=1) @ Xs, atol=1e-4 * (1 + sc), rtol=0, msg="inverse entropic map of new samples")
    else:
        q, un = nearest(ot.dist(Z, Xs))
        un &= ok[q]
        mon.close("transform-new", T[un], (bary(P, Xt)[q] + Z - Xs[q])[un], atol=1e-9 * (1 + sc + np.abs(Z).max()), rtol=0, msg=f"{kind}: nearest-neighbour rule")
        q, un = nearest(ot.dist(Z, Xt))
        un &= okt[q]
        mon.close("inverse-new", I[un], (bary(P.T, Xs)[q] + Z - Xt[q])[un], atol=1e-9 * (1 + sc + np.abs(Z).max()), rtol=0, msg=f"{kind}: inverse nearest-neighbour rule")
    # labels
    shift = int(rng.integers(-1, 4))
    lab, labt = ys * int(gen.pick(rng, (1, 2))) + shift, yt + shift
    if shift == -1:
        mon.event("missing-labels")
    Y = quiet(e.transform_labels, ys=lab)
    u = np.unique(lab)
    H = (lab[:, None] == u[None]).astype(float)
    okt = P.sum(0) > 1e-12
    mon.close("labels-forward", Y[okt], bary(P.T, H)[okt], atol=1e-9, rtol=0, msg="propagated labels")
    mon.true("labels-convex", (Y >= 0).all() and np.allclose(Y.sum(1)[okt], 1, atol=1e-9), "propagated labels are not convex combinations")
    Y = quiet(e.inverse_transform_labels, yt=labt)
    u = np.unique(labt)
    H = (labt[:, None] == u[None]).astype(float)
    mon.close("labels-backward", Y[ok], bary(P, H)[ok], atol=1e-9, rtol=0, msg="labels propagated backwards")
    mon.true("labels-convex", (Y >= 0).all() and np.allclose(Y.sum(1)[ok], 1, atol=1e-9), "propagated labels are not convex combinations")
    # refit and fit_transform
    e2 = copy.copy(e)
    T2 = quiet(e2.fit_transform, Xs=Xs, ys=ys, Xt=Xt)
    mon.close("fit-transform", T2[ok], quiet(e.transform, Xs=Xs)[ok], atol=1e-9 * (1 + sc), rtol=0, msg="fit_transform differs from fit then transform")
    mon.close("refit", e2.coupling_, P, atol=1e-12, rtol=0, msg="a second fit on the same data gives another coupling")


def laplace(mon, e, P, C, Xs, Xt, a, b, log):
    """Documented objective (6) of emd_laplace at the returned plan against the logged one and the start."""
    from sklearn.neighbors import kneighbors_graph

    if e.similarity == "gauss":
        s = 1 / (2 * np.mean(ot.dist(Xs, Xs)) ** 2)
        S1, S2 = np.exp(-ot.dist(Xs, Xs) / (2 * s ** 2)), np.exp(-ot.dist(Xt, Xt) / (2 * s ** 2))
    else:
        S1, S2 = (kneighbors_graph(X=X, n_neighbors=3).toarray() for X in (Xs, Xt))
        S1, S2 = (S1 + S1.T) / 2, (S2 + S2.T) / 2
    eta, al = e.reg_lap, e.reg_src

    def quad(S, Y):
        return 0.5 * float(np.sum(S * ((Y[:, None] - Y[None]) ** 2).sum(-1)))

    def J(G):
        v = float(np.sum(G * C)) + eta * (al * quad(S1, G @ Xt) + (1 - al) * quad(S2, G.T @ Xs))
        if e.reg == "disp":
            # linear part of the displacement regularity, up to a constant: the gradient at 0
            L1, L2 = np.diag(S1.sum(1)) - S1, np.diag(S2.sum(1)) - S2
            v -= eta * al / len(Xs) * 2 * float(np.trace(Xs.T @ L1 @ G @ Xt)) + eta * (1 - al) / len(Xt) * 2 * float(np.trace(Xs.T @ G @ L2 @ Xt))
        return v

    s = 1 + abs(J(P)) + abs(J(a[:, None] * b))
    if log and e.log_.get("loss"):
        mon.le("documented-value", abs(e.log_["loss"][-1] - J(P)), 1e-7 * s, f"logged loss {e.log_['loss'][-1]} is not the documented objective {J(P)}")
        l = np.array(e.log_["loss"])
        mon.le("descent", float((l[1:] - l[:-1]).max()) if len(l) > 1 else 0.0, 1e-9 * s, "the loss increases")
    mon.le("descent", J(P) - J(a[:, None] * b), 1e-9 * s, "worse than the independent coupling it starts from")


@core.family(FAMILIES, 60)
def semi_supervised(mon, rng, idx):
    kind = ("emd", "sinkhorn-ferradans", "sinkhorn-continuous", "unbalanced")[idx % 4]
    n, m, d = int(rng.integers(4, 9)), int(rng.integers(4, 9)), 2
    Xs, Xt, ys, yt = clouds(mon, rng, n, m, d)
    ys, yt = rng.integers(0, 2, n), rng.integers(0, 2, m)
    ys[:2], yt[:2] = (0, 1), (0, 1)
    if rng.random() < 0.5:
        ys[rng.random(n) < 0.3] = -1
        yt[rng.random(m) < 0.3] = -1
        mon.event("missing-labels")
    W = Weights(Xs, np.ones(n) / n, Xt, np.ones(m) / m)
    e, reg = build(rng, kind, W, None, "sqeuclidean", False)
    e.limit_max = 10
    mon.case(Xs, Xt, ys, yt, kind=kind)
    p0 = params(e)
    i0 = [x.copy() for x in (Xs, ys, Xt, yt)]
    quiet(e.fit, Xs=Xs, ys=ys, Xt=Xt, yt=yt)
    mon.true("parameters-intact", same(p0, params(e)), f"fit changed the parameters of the estimator: {p0} -> {params(e)}")
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(i0, (Xs, ys, Xt, yt))), "fit changed its inputs")
    D = ot.dist(Xs, Xt)
    c1 = np.array(e.cost_)
    quiet(e.fit, Xs=Xs, ys=ys, Xt=Xt, yt=yt)
    mon.close("refit", e.cost_, c1, atol=0, rtol=1e-12, msg="a second fit changes the cost")
    clash = (ys[:, None] != yt[None]) & (ys[:, None] != -1) & (yt[None] != -1)
    mon.close("label-only-raises", c1[~clash], D[~clash], atol=1e-9, rtol=1e-9, msg="cost of a pair with compatible or missing labels changed")
    mon.le("label-only-raises", float((D - c1).max()), 1e-9, "label information lowers a cost")
    if clash.any() and idx < 8:
        mon.true("label-forbids", bool((c1[clash] >= 10 * D.max() * (1 - 1e-9)).all()), "the cost between samples of different classes is not raised to limit_max: label information is ignored")


@core.family(FAMILIES, 120)
def linear_and_mapping(mon, rng, idx):
    n, m, d = int(rng.integers(5, 15)), int(rng.integers(5, 15)), int(rng.integers(1, 4))
    Xs, Xt, ys, yt = clouds(mon, rng, n, m, d)
    a, b = gen.weights(rng, n, positive=True), gen.weights(rng, m, positive=True)
    a, b = 0.5 * a + 0.5 / n, 0.5 * b + 0.5 / m
    Z = rng.normal(size=(4, d))
    kind = ("linear", "mapping", "mapping")[idx % 3]
    mon.event(kind)
    mon.case(Xs, Xt, a, b, kind=kind)
    if kind == "linear":
        e = ot.da.LinearTransport(reg=1e-8, bias=bool(rng.random() < 0.7), log=bool(rng.random() < 0.5), distribution_estimation=Weights(Xs, a, Xt, b))
        p0 = params(e)
        quiet(e.fit, Xs=Xs, Xt=Xt)
        mon.true("parameters-intact", same(p0, params(e)), "fit changed the parameters")
        A, B = np.asarray(e.A_), np.asarray(e.B_)
        mon.close("linear-map", e.transform(Xs=Z), Z @ A + B, atol=1e-9 * (1 + np.abs(A).max()), rtol=1e-9, msg="transform is not the affine map")
        mon.close("linear-map", e.transform(Xs=Z, batch_size=1), e.transform(Xs=Z), atol=1e-12, rtol=1e-9, msg="batching")
        if e.bias:
            Y = e.transform(Xs=Xs)
            mt = b @ Xt
            mon.close("linear-map", a @ Y, mt, atol=1e-6 * (1 + np.abs(mt).max()), rtol=0, msg="weighted mean of the image")
        s = float(np.linalg.cond(A))
        if s < 1e6:
            mon.close("linear-map", e.inverse_transform(Xt=e.transform(Xs=Z)), Z, atol=1e-9 * s ** 2 + 1e-9, rtol=0, msg="inverse_transform does not invert transform")
    else:
        kern = gen.pick(rng, ("linear", "gaussian"))
        bias = bool(rng.random() < 0.5)
        e = ot.da.MappingTransport(kernel=kern, bias=bias, mu=float(10 ** rng.uniform(-1, 1)), eta=float(10 ** rng.uniform(-3, 0)), sigma=float(rng.uniform(0.5, 2)), max_iter=10, log=bool(rng.random() < 0.5))
        p0 = params(e)
        i0 = [Xs.copy(), Xt.copy()]
        quiet(e.fit, Xs=Xs, Xt=Xt)
        mon.true("parameters-intact", same(p0, params(e)), "fit changed the parameters")
        mon.true("input-intact", np.array_equal(Xs, i0[0]) and np.array_equal(Xt, i0[1]), "fit changed its inputs")
        mon.le("coupling-marginals", oracles.marg_err(e.coupling_, np.ones(n) / n, np.ones(m) / m), 1e-9, "coupling of the mapping")
        mon.close("transform-train", e.transform(Xs=Xs), bary(np.asarray(e.coupling_), Xt), atol=1e-9 * (1 + np.abs(Xt).max()), rtol=0, msg="image of the training samples")
        K = Z if kern == "linear" else np.exp(-ot.dist(Z, Xs) / (2 * e.sigma ** 2))
        if bias:
            K = np.hstack([K, np.ones((4, 1))])
        ref = K @ np.asarray(e.mapping_)
        mon.close("transform-new", e.transform(Xs=Z), ref, atol=1e-9 * (1 + np.abs(ref).max()), rtol=1e-9, msg="image of new samples is not the fitted regression")


@core.family(FAMILIES, 90, weight=2)
def jcpot(mon, rng, idx):
    k, c, d, m = int(rng.integers(2, 4)), int(rng.integers(2, 4)), int(rng.integers(1, 3)), int(rng.integers(4, 10))
    Xs, ys = [], []
    for _ in range(k):
        n = int(rng.integers(c + 1, 9))
        y = np.concatenate([np.arange(c), rng.integers(0, c, n - c)])
        rng.shuffle(y)
        Xs.append(rng.normal(size=(n, d)) + y[:, None])
        ys.append(y)
    Xt = rng.normal(size=(m, d)) + rng.integers(0, c, m)[:, None]
    reg = float(10 ** rng.uniform(-0.2, 0.8))
    log = bool(rng.random() < 0.5)
    tol = 1e-10
    it = int(gen.pick(rng, (1, 3, 500)))
    e = ot.da.JCPOTTransport(reg_e=reg, max_iter=it, tol=tol, log=log)
    mon.event("jcpot")
    mon.case(*Xs, *ys, Xt, reg=reg, max_iter=it, log=log)
    p0, i0 = params(e), [x.copy() for x in Xs + ys]
    quiet(e.fit, Xs=Xs, ys=ys, Xt=Xt)
    mon.true("parameters-intact", same(p0, params(e)), "fit changed the parameters")
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(i0, Xs + ys)), "fit changed its inputs")
    h = np.asarray(e.proportions_)
    hk = quiet(ot.bregman.jcpot_barycenter, Xs, [y.copy() for y in ys], Xt, reg, numItermax=it, stopThr=tol)
    mon.close("iteration-limit", h, hk, atol=1e-9, rtol=0, msg=f"proportions are not those of max_iter={it} iterations")
    for P, X, y in zip(e.coupling_, Xs, ys):
        P = np.asarray(P)
        K = np.exp(-ot.dist(X, Xt) / reg)
        if (K / K.sum(0) / m).sum(1).min() < 1e-8:  # the solver floors row masses at 1e-10
            mon.event("jcpot-underflow")
            continue
        mon.finite("finite", P, "coupling")
        for q in range(c):
            mon.le("jcpot-columns", abs(float(P[y == q].sum() / P.sum()) - h[q]), 1e-7, "mass of a class in a domain is not the estimated proportion")
        if it == 500:
            mon.le("coupling-marginals", float(np.abs(P.sum(0) - 1 / m).max()), 1e-3, "target marginal of a domain's coupling")
    T = e.transform(Xs=Xs)
    for P, t in zip(e.coupling_, T):
        mon.close("transform-train", t, bary(np.asarray(P), Xt), atol=1e-9 * (1 + np.abs(Xt).max()), rtol=0, msg="images of a domain")
    Z = rng.normal(size=(5, d)) * 2
    T = e.transform(Xs=Z, batch_size=2)
    al, im = np.concatenate(Xs), np.concatenate([bary(np.asarray(P), Xt) for P in e.coupling_])
    q, un = nearest(ot.dist(Z, al))
    mon.close("transform-new", T[un], (im[q] + Z - al[q])[un], atol=1e-9 * (1 + np.abs(Xt).max() + np.abs(Z).max()), rtol=0, msg="nearest-neighbour rule")
    Y = e.transform_labels(ys=ys)
    ref = sum((y[None] == np.arange(c)[:, None]) @ (np.asarray(P) / np.asarray(P).sum(1)[:, None]) for P, y in zip(e.coupling_, ys)).T / k
    mon.close("jcpot-map", Y, ref, atol=1e-9 * (1 + ref.max()), rtol=0, msg="propagated labels")
    yt = np.concatenate([np.arange(c), rng.integers(0, c, m)])[:m]
    if (np.unique(yt) == np.arange(len(np.unique(yt)))).all():
        for P, y in zip(e.coupling_, e.inverse_transform_labels(yt=yt)):
            mon.close("labels-backward", y, bary(np.asarray(P), (yt[:, None] == np.unique(yt)[None]).astype(float)), atol=1e-9, rtol=0, msg="labels propagated backwards")
