"""C25 - sliced distances are aggregates of exact one-dimensional transports.

Every sliced call is observed together with the projections it reports; the check
projects the samples itself, solves each slice with an independent exact solver
(sorted north-west corner on the line, an LP with geodesic costs on the circle)
and recomputes the documented aggregate (mean, maximum, best plan, weighted mean
of plans).  Plans built from slices must be feasible, be optimal for their own
slice and cost what is reported in the original space, in whatever batches it is
summed; distances must be symmetric, null on equal measures, reproducible from
the seed and invariant when samples and projections move together."""
import warnings

import numpy as np
import ot
from ot import sliced as sl

from vt import core, gen, oracles
from vt.checks.c07 import exact as circle_lp

ASSUMPTIONS = [
    "slices on the circle use the default cut tolerance 1e-6 of the solver: judged to 2e-5 on the p-th power",
    "the linear spherical distance is judged as the mean of ot.linear_circular_ot over slices (that function is C07's)",
]
BACKENDS = ()
REQUIRED = ["swd-value", "max-swd-value", "slice-values", "unit-projections", "symmetric", "zero-on-equal", "seed-reproducible", "rotation", "translation", "plan-feasible", "plan-slice-optimal", "plan-cost", "min-plan", "expected-plan", "batch-independent", "sphere-value", "sphere-unif-value", "sphere-linear-value", "sphere-frames", "wasserstein1d-plans"]
REQUIRED_EVENTS = {"weighted": 20, "projections-given": 20, "permutation-plans": 20, "general-plans": 20, "batched": 10, "uniform-sphere": 5, "fewer-projections": 5}
FAMILIES = {}


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def w1d(x, y, a, b, p):
    P = oracles.monotone_plan(x, y, a, b)
    return float((P * np.abs(x[:, None] - y[None]) ** p).sum())


def measures(mon, rng, d, hi=10, same=False):
    n = int(rng.integers(1, hi))
    m = n if same or rng.random() < 0.4 else int(rng.integers(1, hi))
    X, Y = gen.points(rng, n, d), gen.points(rng, m, d)
    a = b = None
    r = rng.random()
    if r < 0.5:
        a, b = gen.weights(rng, n), gen.weights(rng, m)
        mon.event("weighted")
    elif r < 0.6:
        a = gen.weights(rng, n)
    p = np.ones(n) / n if a is None else a
    q = np.ones(m) / m if b is None else b
    return X, Y, a, b, p, q


@core.family(FAMILIES, 300)
def distances(mon, rng, idx):
    d = int(rng.integers(1, 5))
    X, Y, a, b, wa, wb = measures(mon, rng, d)
    p = gen.pick(rng, (1, 2, 2, 3, 1.5))
    L = int(rng.integers(1, 12))
    kw = dict(p=p)
    if rng.random() < 0.6:
        T = rng.normal(size=(d, L))
        T /= np.sqrt((T ** 2).sum(0))
        kw["projections"] = T
        if rng.random() < 0.5:
            kw["n_projections"] = L + 3  # ignored when projections are given
        mon.event("projections-given")
    else:
        kw.update(n_projections=L, seed=int(rng.integers(1000)))
    sc = None
    f = lambda Z: Z
    if rng.random() < 0.3:
        sg, sh = rng.uniform(0.5, 2, d), rng.normal(size=d)
        f = lambda Z: (Z - sh) / sg

        class Sc:
            transform = staticmethod(f)

        sc = f if rng.random() < 0.5 else Sc()
        kw["scaler"] = sc
    mon.case(X, Y, wa, wb, p=p, L=L, given="projections" in kw, scaler=sc is not None)
    cp = [z.copy() for z in (X, Y, wa, wb)]
    v, log = ot.sliced_wasserstein_distance(X, Y, a, b, log=True, **kw)
    u, logm = ot.max_sliced_wasserstein_distance(X, Y, a, b, log=True, **kw)
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(cp, (X, Y, wa, wb))), "inputs modified")
    T = np.asarray(log["projections"])
    mon.true("shapes", T.shape == (d, L) and np.shape(log["projected_emds"]) == (L,), f"{T.shape} {np.shape(log['projected_emds'])}")
    mon.true("seed-reproducible", np.array_equal(T, logm["projections"]), "same seed, different projections")
    if "projections" in kw:
        mon.true("projections-used", np.array_equal(T, kw["projections"]), "given projections are not the reported ones")
    mon.close("unit-projections", (T ** 2).sum(0), np.ones(L), atol=1e-12, rtol=0, msg="projections are not unit vectors")
    ref = np.array([w1d(f(X) @ T[:, k], f(Y) @ T[:, k], wa, wb, p) for k in range(L)])
    s = 1e-11 * (1 + np.abs(f(X)).max() + np.abs(f(Y)).max()) ** p * (1 + d) ** p
    mon.close("slice-values", log["projected_emds"], ref, atol=s, rtol=1e-9, msg="exact 1D transport costs of the slices")
    mon.close("slice-values", logm["projected_emds"], ref, atol=s, rtol=1e-9, msg="exact 1D transport costs of the slices (max)")
    mon.close("swd-value", float(v) ** p, ref.mean(), atol=s, rtol=1e-9, msg="mean of the slices")
    mon.close("max-swd-value", float(u) ** p, ref.max(), atol=s, rtol=1e-9, msg="maximum of the slices")
    mon.true("log-same", float(ot.sliced_wasserstein_distance(X, Y, a, b, **kw)) == float(v), "log changes the value")
    mon.true("log-same", float(ot.max_sliced_wasserstein_distance(X, Y, a, b, **kw)) == float(u), "log changes the value (max)")
    mon.close("symmetric", float(ot.sliced_wasserstein_distance(Y, X, b, a, **kw)) ** p, float(v) ** p, atol=s, rtol=1e-9, msg="symmetry")
    o = rng.permutation(len(X))
    z = float(ot.sliced_wasserstein_distance(X, X[o], wa, wa[o], **kw))
    mon.le("zero-on-equal", z ** p, s, "same measure listed in another order")
    # dominated by the distance in the original space
    M = np.sqrt(((f(X)[:, None] - f(Y)[None]) ** 2).sum(-1)) ** p
    mon.le("below-wasserstein", float(u) ** p - oracles.lp_transport(wa, wb * (wa.sum() / wb.sum()), M)[0], 1e-7 * (1 + M.max()), "slices are contractions")
    if sc is None:
        kw2 = {k: x for k, x in kw.items() if k not in ("seed", "n_projections")}
        kw2["projections"] = T
        t = rng.normal(size=d)
        mon.close("translation", float(ot.sliced_wasserstein_distance(X + t, Y + t, a, b, **kw2)) ** p, float(v) ** p, atol=s * 10, rtol=1e-8, msg="common translation")
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        kw2["projections"] = q @ T
        mon.close("rotation", float(ot.sliced_wasserstein_distance(X @ q.T, Y @ q.T, a, b, **kw2)) ** p, float(v) ** p, atol=s * 10, rtol=1e-8, msg="common rotation of samples and projections")


def dense(P, n, m):
    if hasattr(P, "rows"):
        D = np.zeros((n, m))
        np.add.at(D, (np.asarray(P.rows), np.asarray(P.cols)), np.asarray(P.data))
        return D
    return np.asarray(P.todense()) if hasattr(P, "todense") else np.asarray(P)


@core.family(FAMILIES, 260, weight=2)
def plans(mon, rng, idx):
    d = int(rng.integers(1, 4))
    X, Y, a, b, wa, wb = measures(mon, rng, d, 9)
    if abs(wa.sum() - wb.sum()) > 1e-12:
        wb = wb * (wa.sum() / wb.sum())
    n, m = len(X), len(Y)
    metric = str(gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock", "minkowski")))
    p = gen.pick(rng, (1, 2, 3))
    L = int(rng.integers(1, 8))
    bs = gen.pick(rng, (None, None, 1, 2, 5))
    if bs:
        mon.event("batched")
    kw = dict(metric=metric, p=p, batch_size=bs)
    if rng.random() < 0.5:
        T = rng.normal(size=(d, L))
        T /= np.sqrt((T ** 2).sum(0))
        kw["projections"] = T
        if rng.random() < 0.5:
            kw["n_projections"] = L + int(rng.integers(1, 4))
            mon.event("fewer-projections")
    else:
        kw.update(n_projections=L, seed=int(rng.integers(1000)))
    mon.case(X, Y, wa, wb, metric=metric, p=p, L=L, batch=str(bs), given="projections" in kw)
    q = {"euclidean": 2, "cityblock": 1}.get(metric, p)
    if metric == "sqeuclidean":
        M = ((X[:, None] - Y[None]) ** 2).sum(-1)
    else:
        M = (np.abs(X[:, None] - Y[None]) ** q).sum(-1) ** (1 / q)
    uni = n == m and np.ptp(wa) == 0 and np.ptp(wb) == 0
    mon.event("permutation-plans" if uni else "general-plans")
    # is only equal up to rounding: the solver may use either branch
    P, c, log = sl.sliced_plans(X, Y, a, b, log=True, **kw)
    T = np.asarray(log["projections"])
    tol = 1e-10 * (1 + M.max())
    mon.true("shapes", len(P) == L and np.shape(c) == (L,) and T.shape == (d, L), f"{len(P)} plans, costs {np.shape(c)}, projections {T.shape}")
    if not len(P) == L:
        return
    D = [dense(x, n, m) for x in P]
    xs, ys = X @ T, Y @ T
    mon.close("plan-projections", log["X_projection"], xs, atol=1e-12 * (1 + np.abs(X).max()), rtol=0, msg="projected sources")
    mon.close("plan-projections", log["Y_projection"], ys, atol=1e-12 * (1 + np.abs(Y).max()), rtol=0, msg="projected targets")
    for k in range(L):
        mon.le("plan-feasible", oracles.marg_err(D[k], wa, wb), 1e-12, "marginals of a slice plan")
        mon.le("plan-feasible", -float(D[k].min()), 1e-15, "negative entry in a slice plan")
        for r in (1, 2):
            G = np.abs(xs[:, k][:, None] - ys[:, k][None]) ** r
            mon.close("plan-slice-optimal", float((D[k] * G).sum()), w1d(xs[:, k], ys[:, k], wa, wb, r), atol=1e-10 * (1 + G.max()), rtol=0, msg="plan is not optimal for its own slice")
        mon.close("plan-cost", float(c[k]), float((D[k] * M).sum()), atol=tol, rtol=1e-10, msg="reported cost of a slice plan is not its cost")
    c = np.asarray(c)
    kw0 = dict(kw, batch_size=None)
    mon.close("batch-independent", sl.sliced_plans(X, Y, a, b, **kw0)[1], c, atol=tol, rtol=1e-12, msg="costs depend on the batch size")
    # best plan
    G, v, lg = sl.min_sliced_transport_plan(X, Y, a, b, log=True, **kw)
    k = int(np.argmin(c))
    mon.close("min-plan", float(v), float(c.min()), atol=tol, rtol=1e-12, msg="cost of the best slice")
    mon.close("min-plan", float((np.asarray(G) * M).sum()), float(v), atol=tol, rtol=1e-10, msg="returned plan does not have the reported cost")
    mon.le("plan-feasible", oracles.marg_err(G, wa, wb), 1e-12, "marginals of the best plan")
    mon.close("min-plan", lg["min_projection"], T[:, k], atol=0, rtol=0, msg="projection of the best plan")
    mon.close("min-plan", lg["X_min_projection"], xs[:, k], atol=1e-12 * (1 + np.abs(X).max()), rtol=0, msg="projected sources of the best plan")
    mon.close("min-plan", lg["Y_min_projection"], ys[:, k], atol=1e-12 * (1 + np.abs(Y).max()), rtol=0, msg="projected targets of the best plan")
    S, v2 = sl.min_sliced_transport_plan(X, Y, a, b, dense=False, **kw)
    mon.close("sparse=dense", dense(S, n, m), np.asarray(G), atol=1e-15, rtol=0, msg="sparse output of the best plan")
    lp = oracles.lp_transport(wa, wb, M)[0]
    mon.le("min-plan", lp - float(v), 1e-7 * (1 + M.max()), "cost of a feasible plan below the OT cost")
    # averaged plan
    beta = float(gen.pick(rng, (0.0, 0.0, 1.0, 10.0, -0.5)))
    E, v, lg = sl.expected_sliced_plan(X, Y, a, b, beta=beta, log=True, **kw)
    z = -beta * c
    w = np.exp(z - z.max())
    w /= w.sum()
    ref = sum(wk * Dk for wk, Dk in zip(w, D))
    mon.close("expected-plan", lg["weights"], w, atol=1e-10 * (1 + abs(beta) * M.max()), rtol=0, msg="weights of the slices")
    e = 1e-10 * (1 + abs(beta) * M.max())
    mon.close("expected-plan", np.asarray(E), ref, atol=e, rtol=0, msg="weighted mean of the slice plans")
    mon.le("plan-feasible", oracles.marg_err(E, wa, wb), 1e-11, "marginals of the expected plan")
    mon.close("expected-plan", float(v), float((ref * M).sum()), atol=e * (1 + M.max()) + tol, rtol=1e-9, msg="reported cost of the expected plan")
    S, v2 = sl.expected_sliced_plan(X, Y, a, b, beta=beta, dense=False, **kw)
    mon.close("sparse=dense", dense(S, n, m), np.asarray(E), atol=1e-15, rtol=0, msg="sparse output of the expected plan")
    mon.close("sparse=dense", float(v2), float(v), atol=tol, rtol=1e-12, msg="sparse value of the expected plan")


@core.family(FAMILIES, 200)
def presorted(mon, rng, idx):
    n, m, k = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 4))
    x, y = np.sort(np.round(rng.normal(size=(n, k)), 2), 0), np.sort(np.round(rng.normal(size=(m, k)), 2), 0)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    p = gen.pick(rng, (1, 2, 3))
    srt = bool(rng.random() < 0.5)
    mon.case(x, y, a, b, p=p, sort=srt)
    w, P = ot.wasserstein_1d(x, y, a, b, p=p, require_sort=srt, return_plans=True)
    w2, Q = ot.wasserstein_1d(x, y, a, b, p=p, require_sort=srt, return_plans="coo_tuple")
    for c in range(k):
        D = dense(P[c], n, m)
        G = np.abs(x[:, c][:, None] - y[:, c][None]) ** p
        mon.le("wasserstein1d-plans", oracles.marg_err(D, a, b), 1e-12, "marginals")
        mon.close("wasserstein1d-plans", float((D * G).sum()), w1d(x[:, c], y[:, c], a, b, p), atol=1e-11 * (1 + G.max()), rtol=0, msg="plan is not optimal")
        mon.close("wasserstein1d-plans", float(w[c]), float((D * G).sum()), atol=1e-11 * (1 + G.max()), rtol=0, msg="cost of the plan")
        mon.close("sparse=dense", dense(Q[c], n, m), D, atol=1e-15, rtol=0, msg="coordinate output")


@core.family(FAMILIES, 200)
def sparse_costs(mon, rng, idx):
    """ot.utils.sparse_ot_dist is the weighted sum over the listed pairs."""
    n, m, d, k = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 4)), int(rng.integers(1, 15))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d))
    i, j = rng.integers(0, n, k), rng.integers(0, m, k)
    w = None if rng.random() < 0.3 else rng.random(k)
    metric = str(gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock", "minkowski")))
    p = gen.pick(rng, (1, 2, 3, 1.5))
    bs = gen.pick(rng, (None, 1, 2, 4, 100))
    mon.case(X, Y, i, j, w, metric=metric, p=p, batch=str(bs))
    q = {"euclidean": 2, "cityblock": 1}.get(metric, p)
    D = ((X[i] - Y[j]) ** 2).sum(1) if metric == "sqeuclidean" else (np.abs(X[i] - Y[j]) ** q).sum(1) ** (1 / q)
    ref = float(D.mean() if w is None else w @ D)
    mon.close("plan-cost", float(ot.utils.sparse_ot_dist(X, Y, i, j, w, metric=metric, p=p, batch_size=bs)), ref, atol=1e-12 * (1 + D.max()) * k, rtol=0, msg="sum over the listed pairs")


def sphere(rng, n, d):
    X = rng.normal(size=(n, d))
    if rng.random() < 0.3:
        X = X * 0.1 + np.eye(d)[0]
    if rng.random() < 0.2:
        X[n // 2:] = X[0]
    return X / np.sqrt((X ** 2).sum(1, keepdims=True))


@core.family(FAMILIES, 160, weight=2)
def spherical(mon, rng, idx):
    d, n, m = int(rng.integers(2, 5)), int(rng.integers(1, 8)), int(rng.integers(1, 8))
    X, Y = sphere(rng, n, d), sphere(rng, m, d)
    a = b = None
    if rng.random() < 0.5:
        a, b = gen.weights(rng, n, positive=True), gen.weights(rng, m, positive=True)
        mon.event("weighted")
    wa = np.ones(n) / n if a is None else a
    wb = np.ones(m) / m if b is None else b
    L = int(rng.integers(1, 7))
    kw = {}
    if rng.random() < 0.5:
        kw["projections"] = np.stack([np.linalg.qr(rng.normal(size=(d, 2)))[0] for _ in range(L)])
        mon.event("projections-given")
        if rng.random() < 0.5:
            kw["n_projections"] = L
        else:
            mon.event("fewer-projections")
    else:
        kw.update(n_projections=L, seed=int(rng.integers(1000)))
    p = gen.pick(rng, (1, 2, 2, 3))
    mon.case(X, Y, wa, wb, p=p, L=L)
    v, log = ot.sliced_wasserstein_sphere(X, Y, a, b, p=p, log=True, **kw)
    T = np.asarray(log["projections"])
    mon.true("shapes", T.shape == (L, d, 2) and np.size(log["projected_emds"]) == L, f"{T.shape}")
    for t in T:
        mon.close("sphere-frames", t.T @ t, np.eye(2), atol=1e-10, rtol=0, msg="frame is not orthonormal")

    def coords(Z):
        out = []
        for t in T:
            u = Z @ t
            out.append(np.arctan2(u[:, 1], u[:, 0]) / (2 * np.pi) % 1)
        return np.array(out)

    cx, cy = coords(X), coords(Y)
    if min(np.sqrt(((Z @ t) ** 2).sum(1)).min() for Z in (X, Y) for t in T) < 1e-6:
        raise core.Skip
    gx, _ = sl.projection_sphere_to_circle(X, n_projections=L, projections=T)
    e = np.abs(np.asarray(gx) - cx) % 1
    mon.le("sphere-coordinates", float(np.minimum(e, 1 - e).max()), 1e-9, "angles on the great circles")
    ref = np.array([circle_lp(cx[k], cy[k], wa, wb, p) for k in range(L)])
    mon.close("slice-values", np.ravel(log["projected_emds"]), ref, atol=2e-5, rtol=0, msg="exact circular transport costs")
    mon.close("sphere-value", float(np.ravel(v)[0]) ** p, float(np.ravel(log["projected_emds"]).mean()), atol=1e-12, rtol=1e-9, msg="mean over slices")
    mon.true("log-same", np.array_equal(ot.sliced_wasserstein_sphere(X, Y, a, b, p=p, **kw), v), "log changes the value, or the seed does not fix it")
    mon.close("symmetric", float(np.ravel(ot.sliced_wasserstein_sphere(Y, X, b, a, p=p, **kw))[0]) ** p, float(np.ravel(v)[0]) ** p, atol=4e-5, rtol=0, msg="symmetry")
    o = rng.permutation(n)
    mon.le("zero-on-equal", float(np.ravel(ot.sliced_wasserstein_sphere(X, X[o], wa, wa[o], p=p, **kw))[0]) ** p, 2e-5, "same measure in another order")
    # rotation of samples and frames
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    r = ot.sliced_wasserstein_sphere(X @ q.T, Y @ q.T, a, b, p=p, projections=np.einsum("ij,kjl->kil", q, T), n_projections=L)
    mon.close("rotation", float(np.ravel(r)[0]) ** p, float(np.ravel(v)[0]) ** p, atol=4e-5, rtol=0, msg="common rotation")
    # against the uniform measure
    u, lu = ot.sliced_wasserstein_sphere_unif(X, a, log=True, **kw)
    ref = []
    for k in range(L):
        s = np.argsort(cx[k])
        x, w = cx[k][s], wa[s]
        cf = np.r_[0, np.cumsum(w)]
        cf[-1] = 1
        m1 = (x * np.diff(cf)).sum() - 0.5
        ref.append(sum((cf[i + 1] - x[i]) ** 3 - (cf[i] - x[i]) ** 3 for i in range(n)) / 3 - m1 ** 2)
    mon.close("slice-values", np.ravel(lu["projected_emds"]), ref, atol=1e-9, rtol=0, msg="exact semi-discrete costs")
    mon.close("sphere-unif-value", float(np.ravel(u)[0]) ** 2, float(np.mean(ref)), atol=1e-9, rtol=1e-9, msg="mean over slices (uniform target)")
    # linear version
    l, ll = ot.linear_sliced_wasserstein_sphere(X, Y, a, b, log=True, **kw)
    T2 = np.asarray(ll["projections"])
    mon.true("seed-reproducible", np.array_equal(T2, T), "same seed, different frames")
    ref = np.array([float(np.ravel(ot.linear_circular_ot(cx[k], cy[k], a, b))[0]) for k in range(L)])
    mon.close("sphere-linear-value", float(np.ravel(l)[0]) ** 2, ref.mean(), atol=1e-7, rtol=1e-7, msg="mean over slices (linear)")
    mon.event("uniform-sphere")
    l = ot.linear_sliced_wasserstein_sphere(X, None, a, **kw)
    ref = np.array([float(np.ravel(ot.linear_circular_ot(cx[k], None, a))[0]) for k in range(L)])
    mon.close("sphere-linear-value", float(np.ravel(l)[0]) ** 2, ref.mean(), atol=1e-7, rtol=1e-7, msg="mean over slices (linear, uniform target)")


@core.family(FAMILIES, 40)
def contracts(mon, rng, idx):
    d = int(rng.integers(2, 4))
    X, Y = rng.normal(size=(4, d)) * 2 + 1, rng.normal(size=(5, d + 1))
    S = sphere(rng, 4, d)
    mon.case(X, Y)
    B = (ValueError, AssertionError)
    for n, f in (("swd", lambda: ot.sliced_wasserstein_distance(X, Y)), ("max", lambda: ot.max_sliced_wasserstein_distance(X, Y)),
                 ("min plan", lambda: sl.min_sliced_transport_plan(X, Y, n_projections=2)), ("expected plan", lambda: sl.expected_sliced_plan(X, Y, n_projections=2)),
                 ("no projections", lambda: sl.min_sliced_transport_plan(X, X)), ("metric", lambda: sl.sliced_plans(X, X, metric="cosine", n_projections=2)),
                 ("off sphere", lambda: ot.sliced_wasserstein_sphere(X, S)), ("off sphere 2", lambda: ot.sliced_wasserstein_sphere(S, X)),
                 ("off sphere unif", lambda: ot.sliced_wasserstein_sphere_unif(X)), ("off sphere linear", lambda: ot.linear_sliced_wasserstein_sphere(S, X)),
                 ("scaler", lambda: ot.sliced_wasserstein_distance(X, X, scaler=3)), ("p<1", lambda: ot.sliced_wasserstein_distance(X, X, p=0.5))):
        mon.raises("rejects-bad-arguments", lambda: quiet(f), B, n)
    st = np.random.RandomState(int(idx))
    p1 = sl.get_random_projections(d, 7, seed=st)
    p2 = sl.get_random_projections(d, 7, seed=np.random.RandomState(int(idx)))
    mon.true("seed-reproducible", np.array_equal(p1, p2), "equal generators, different projections")
    mon.true("seed-advances", not np.array_equal(p1, sl.get_random_projections(d, 7, seed=st)), "a shared generator returns the same projections twice")
    i = int(idx)
    mon.true("seed-reproducible", np.array_equal(sl.get_projections_sphere(d, 3, seed=i), sl.get_projections_sphere(d, 3, seed=i)), "same seed, different frames")
