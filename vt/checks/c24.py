"""C24 - Gaussian and Gaussian-mixture transport follow the Bures geometry.

Distances are recomputed outside of POT from eigenvalues, for single, batched and
paired covariances down to singular ones, and the metric axioms are judged on
triples; barycenters of every method must be fixed points, not be beaten by any
perturbation and equal the closed form when covariances commute; Gaussian GW
distances and maps are checked against spectra and pushed moments; mixture
costs against an LP over independently computed Bures costs, mixture maps and
densities against their formula, and each recorded step of the mixture
barycenter against an own fixed-point step."""
import contextlib
import io
import warnings

import numpy as np
import ot
from scipy.stats import multivariate_normal

from vt import core, gen, oracles

ASSUMPTIONS = [
    "distances of singular covariances are judged on squares with a tolerance of 3e-7 of the trace (square root of rounding)",
    "deterministic barycenters are judged when the solver reports convergence below eps; stochastic ones within the spread of the data",
    "mixture barycenter steps are compared when the component plans are unique (generic data)",
]
BACKENDS = ()
REQUIRED = ["bures-formula", "bures-metric", "bw-formula", "empirical", "barycenter-fixed-point", "barycenter-minimal", "barycenter-closed-form", "barycenter-mean", "ggw-formula", "ggw-push", "gmm-cost", "gmm-plan", "gmm-map", "gmm-density", "gmm-barycenter-step", "logpdf"]
REQUIRED_EVENTS = {"singular": 10, "paired": 10, "batched": 10, "m>n": 5, "m<n": 5, "zero-skewness": 3, "non-uniform-wbar": 3, "sgd": 3}
FAMILIES = {}


def quiet(fn, *a, **k):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def cov(rng, d, cond=100.0, rank=None, scale=None):
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    lam = 10 ** rng.uniform(-np.log10(cond) / 2, np.log10(cond) / 2, d)
    if rank is not None:
        lam[rank:] = 0
    C = (q * lam) @ q.T * (10 ** rng.uniform(-1.5, 1.5) if scale is None else scale)
    return (C + C.T) / 2


def rootm(C):
    w, v = np.linalg.eigh((C + C.T) / 2)
    return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def bures2(A, B):
    # tr (A^1/2 B A^1/2)^1/2 is the nuclear norm of A^1/2 B^1/2
    return max(0.0, float(np.trace(A) + np.trace(B) - 2 * np.linalg.svd(rootm(A) @ rootm(B), compute_uv=False).sum()))


def covs(mon, rng, d, k):
    sing = rng.random() < 0.4
    out = []
    for _ in range(k):
        r = None
        if sing and rng.random() < 0.6:
            r = int(rng.integers(0, d))
            mon.event("singular")
        out.append(cov(rng, d, float(gen.pick(rng, (2.0, 100.0, 1e4))), r, 1.0 if rng.random() < 0.5 else None))
    return np.array(out)


@core.family(FAMILIES, 250)
def bures(mon, rng, idx):
    d, k, l = int(rng.integers(1, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    mode = str(gen.pick(rng, ("single", "batched", "paired")))
    if mode == "paired":
        l = k = max(k, 2)
    Cs, Ct = covs(mon, rng, d, k), covs(mon, rng, d, l)
    if rng.random() < 0.2:
        Ct[0] = Cs[0]
    ms, mt = rng.normal(size=(k, d)) * 10 ** rng.uniform(-2, 1), rng.normal(size=(l, d))
    mon.event(mode)
    mon.case(Cs, Ct, ms, mt, mode=mode)
    ref = np.array([[bures2(A, B) for B in Ct] for A in Cs])
    tr = np.array([[np.trace(A) + np.trace(B) for B in Ct] for A in Cs])
    dm = ((ms[:, None] - mt[None]) ** 2).sum(-1)
    cp = [x.copy() for x in (Cs, Ct, ms, mt)]
    if mode == "single":
        W, log = ot.gaussian.bures_distance(Cs[0], Ct[0], log=True)
        W2 = ot.gaussian.bures_wasserstein_distance(ms[0], mt[0], Cs[0], Ct[0])
        ref, tr, dm = ref[0, 0], tr[0, 0], dm[0, 0]
        mon.close("log-roots", log["Cs12"], rootm(Cs[0]), atol=1e-7 * np.sqrt(1e-300 + np.abs(Cs[0]).max()), rtol=0, msg="Cs12")
    elif mode == "batched":
        W = ot.gaussian.bures_distance(Cs, Ct)
        W2, log = ot.gaussian.bures_wasserstein_distance(ms, mt, Cs, Ct, log=True)
        for R, C in zip(log["Cs12"], Cs):
            mon.close("log-roots", R, rootm(C), atol=1e-7 * np.sqrt(1e-300 + np.abs(C).max()), rtol=0, msg="Cs12")
    else:
        W = ot.gaussian.bures_distance(Cs, Ct, paired=True)
        W2 = ot.gaussian.bures_wasserstein_distance(ms, mt, Cs, Ct, paired=True)
        ref, tr, dm = np.diag(ref), np.diag(tr), np.diag(dm)
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(cp, (Cs, Ct, ms, mt))), "inputs modified")
    W, W2 = np.asarray(W, dtype=float), np.asarray(W2, dtype=float)
    mon.true("shapes", W.shape == np.shape(ref) and W2.shape == np.shape(ref), f"{W.shape} {W2.shape} for {np.shape(ref)}")
    mon.finite("finite", W, "distance")
    e = np.abs(W ** 2 - ref) / (1e-300 + tr)
    mon.le("bures-formula", float(np.max(e)), 3e-7, "squared Bures distance (relative to the traces)")
    mon.le("bw-formula", float(np.max(np.abs(W2 ** 2 - ref - dm) / (1e-300 + tr + dm))), 3e-7, "squared Bures-Wasserstein distance")
    mon.le("bw-splits", float(np.max(np.abs(W2 ** 2 - W ** 2 - dm) / (1e-300 + tr + dm))), 1e-9, "mean shift plus Bures metric")


@core.family(FAMILIES, 150)
def metric(mon, rng, idx):
    d = int(rng.integers(1, 6))
    C = covs(mon, rng, d, 3)
    m = rng.normal(size=(3, d))
    mon.case(C, m)
    f = lambda i, j: float(ot.gaussian.bures_wasserstein_distance(m[i], m[j], C[i], C[j]))
    t = np.sqrt(3e-7 * (np.trace(C, axis1=1, axis2=2).sum()))
    t2 = 3e-7 * np.trace(C, axis1=1, axis2=2).sum()
    mon.le("bures-metric", abs(f(0, 1) ** 2 - f(1, 0) ** 2), 2 * t2, "symmetry")
    mon.le("bures-metric", f(0, 0) ** 2, t2, "zero on equal Gaussians")
    mon.le("bures-metric", f(0, 2) - f(0, 1) - f(1, 2), t + 1e-12 * (1 + np.abs(m).max()), "triangle inequality")
    # rigid motions leave it unchanged
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    s = rng.normal(size=d)
    a = float(ot.gaussian.bures_wasserstein_distance(m[0] @ q.T + s, m[1] @ q.T + s, q @ C[0] @ q.T, q @ C[1] @ q.T))
    mon.le("bures-invariance", abs(a ** 2 - f(0, 1) ** 2), 2 * t2 + 1e-9, "rigid motion")
    c = float(10 ** rng.uniform(-3, 3))
    a = float(ot.gaussian.bures_wasserstein_distance(c * m[0], c * m[1], c * c * C[0], c * c * C[1]))
    mon.le("bures-invariance", abs(a ** 2 - c * c * f(0, 1) ** 2), c * c * (2 * t2 + 1e-9), "homothety")
    # translation only: distance is the shift
    mon.le("bures-metric", abs(float(ot.gaussian.bures_wasserstein_distance(m[0], m[1], C[0], C[0])) ** 2 - ((m[0] - m[1]) ** 2).sum()), t2 + 1e-12, "translated Gaussian")


@core.family(FAMILIES, 150)
def empirical(mon, rng, idx):
    d = int(rng.integers(1, 5))
    n, m = int(rng.integers(2, 20)), int(rng.integers(2, 20))
    xs, xt = rng.normal(size=(n, d)) * 2 + rng.normal(size=d), rng.normal(size=(m, d)) - rng.normal(size=d)
    ws = gen.weights(rng, n)[:, None] * float(gen.pick(rng, (1.0, 3.0))) if rng.random() < 0.5 else None
    wt = gen.weights(rng, m)[:, None] if rng.random() < 0.5 else None
    bias, reg = bool(rng.random() < 0.6), float(gen.pick(rng, (1e-6, 1e-2, 1.0)))
    mon.case(xs, xt, ws, wt, bias=bias, reg=reg)
    p = np.ones(n) / n if ws is None else ws[:, 0] / ws.sum()
    q = np.ones(m) / m if wt is None else wt[:, 0] / wt.sum()
    ms, mt = p @ xs, q @ xt
    z = 1.0 if bias else 0.0
    Cs = ((xs - z * ms) * p[:, None]).T @ (xs - z * ms)
    Ct = ((xt - z * mt) * q[:, None]).T @ (xt - z * mt)
    I = np.eye(d)
    W, log = ot.gaussian.empirical_bures_wasserstein_distance(xs, xt, reg=reg, ws=ws, wt=wt, bias=bias, log=True)
    ref = bures2(Cs + reg * I, Ct + reg * I) + z * ((ms - mt) ** 2).sum()
    mon.le("empirical", abs(float(W) ** 2 - ref), 1e-6 * (np.trace(Cs + Ct) + 2 * reg * d + ref), "squared empirical Bures-Wasserstein distance")
    mon.close("empirical-moments", log["Cs"], Cs + reg * I, atol=1e-10 * (1 + np.abs(Cs).max()), rtol=0, msg="source covariance")
    mon.close("empirical-moments", log["Ct"], Ct + reg * I, atol=1e-10 * (1 + np.abs(Ct).max()), rtol=0, msg="target covariance")
    mon.true("log-same", float(W) == float(ot.gaussian.empirical_bures_wasserstein_distance(xs, xt, reg=reg, ws=ws, wt=wt, bias=bias)), "log changes the value")
    # Gaussian GW between clouds of different dimension
    d2 = int(rng.integers(1, 5))
    xt = rng.normal(size=(m, d2)) @ rng.normal(size=(d2, d2)) + rng.normal(size=d2)
    mt = q @ xt
    Cs = ((xs - ms) * p[:, None]).T @ (xs - ms)
    Ct = ((xt - mt) * q[:, None]).T @ (xt - mt)
    G, log = ot.gaussian.empirical_gaussian_gromov_wasserstein_distance(xs, xt, ws=ws, wt=wt, log=True)
    mon.close("empirical", float(G) ** 2, ggw2(Cs, Ct), atol=1e-9 * (np.trace(Cs) + np.trace(Ct)) ** 2, rtol=1e-9, msg="squared empirical Gaussian GW distance")
    mon.close("empirical-moments", log["Cov_s"], Cs, atol=1e-10 * (1 + np.abs(Cs).max()), rtol=0, msg="source covariance")
    mon.close("empirical-moments", log["Cov_t"], Ct, atol=1e-10 * (1 + np.abs(Ct).max()), rtol=0, msg="target covariance")


def objective(C, w, S):
    return sum(wi * bures2(Ci, S) for wi, Ci in zip(w, C))


@core.family(FAMILIES, 90, weight=3)
def barycenter(mon, rng, idx):
    d, k = int(rng.integers(1, 5)), int(rng.integers(1, 6))
    commute = rng.random() < 0.4
    if commute:
        q, _ = np.linalg.qr(rng.normal(size=(d, d)))
        C = np.array([(q * 10 ** rng.uniform(-1, 1, d)) @ q.T for _ in range(k)])
        C = (C + np.swapaxes(C, 1, 2)) / 2
    else:
        C = np.array([cov(rng, d, 50.0, scale=10 ** rng.uniform(-1, 1)) for _ in range(k)])
    m = rng.normal(size=(k, d)) * 3
    w = None
    if rng.random() < 0.7:
        w = gen.weights(rng, k, positive=bool(rng.random() < 0.7))
    method = str(gen.pick(rng, ("fixed_point", "fixed_point", "gradient_descent", "gradient_descent-step")))
    mon.case(C, m, w, method=method, commute=commute)
    p = np.ones(k) / k if w is None else w
    cp = [C.copy(), m.copy(), None if w is None else w.copy()]
    step = float(rng.uniform(0.3, 1.0)) if method.endswith("step") else 1
    mb, Cb, log = quiet(ot.gaussian.bures_wasserstein_barycenter, m, C, weights=w, method=method.split("-")[0], step_size=step, eps=1e-9, num_iter=3000, log=True)
    mon.true("input-intact", np.array_equal(cp[0], C) and np.array_equal(cp[1], m) and (w is None or np.array_equal(cp[2], w)), "inputs modified")
    Cb = np.asarray(Cb)
    mon.close("barycenter-mean", mb, p @ m, atol=1e-12 * (1 + np.abs(m).max()), rtol=0, msg="mean of the barycenter")
    mon.finite("finite", Cb, "barycenter")
    sc = float(np.abs(C[p > 0]).max())
    mon.le("barycenter-spd", -float(np.linalg.eigvalsh((Cb + Cb.T) / 2).min()), 0, "barycenter of definite covariances is definite")
    if not (float(log["final_diff"]) <= 1e-8 and log["num_iter"] < 2999):
        mon.event("not-converged")
        return
    r = rootm(Cb)
    F = sum(pi * rootm(r @ Ci @ r) for pi, Ci in zip(p, C))
    mon.le("barycenter-fixed-point", float(np.abs(F - Cb).max()), 2e-5 * sc, "barycenter is not a fixed point of the Bures map")
    f = objective(C, p, Cb)
    for _ in range(4):
        S = cov(rng, d, 10.0, scale=1.0)
        t = 10 ** rng.uniform(-3, 0)
        Q = (1 - t) * Cb + t * S * np.trace(Cb) / d
        mon.le("barycenter-minimal", f - objective(C, p, Q), 1e-6 * sc * d, "a perturbed covariance has a lower weighted distance")
    for Ci in C:
        mon.le("barycenter-minimal", f - objective(C, p, Ci), 1e-6 * sc * d, "an input covariance has a lower weighted distance")
    if commute or d == 1:
        R = sum(pi * rootm(Ci) for pi, Ci in zip(p, C))
        mon.close("barycenter-closed-form", Cb, R @ R, atol=2e-5 * sc, rtol=0, msg="barycenter of commuting covariances")


@core.family(FAMILIES, 16, weight=8)
def stochastic(mon, rng, idx):
    d, k = int(rng.integers(1, 4)), int(rng.integers(2, 5))
    C = np.array([cov(rng, d, 4.0, scale=10 ** rng.uniform(-0.3, 0.3)) for _ in range(k)])
    m = rng.normal(size=(k, d))
    w = gen.weights(rng, k, positive=True)
    avg = bool(rng.random() < 0.5)
    bs = gen.pick(rng, (None, 1, 2, k, k + 3))
    method = "averaged_stochastic_gradient_descent" if avg else "stochastic_gradient_descent"
    mon.event("sgd")
    mon.case(C, m, w, method=method, batch=str(bs))
    np.random.seed(idx)
    mb, Cb = quiet(ot.gaussian.bures_wasserstein_barycenter, m, C, weights=w, method=method, batch_size=bs, num_iter=1500, eps=1e-9)
    Cb = np.asarray(Cb)
    mon.close("barycenter-mean", mb, w @ m, atol=1e-12, rtol=1e-12, msg="mean of the barycenter")
    mon.finite("finite", Cb, "barycenter")
    mon.le("barycenter-spd", -float(np.linalg.eigvalsh((Cb + Cb.T) / 2).min()), 0, "barycenter of definite covariances is definite")
    _, B = quiet(ot.gaussian.bures_wasserstein_barycenter, m, C, weights=w, eps=1e-9)
    fb = objective(C, w, B)
    slack = 0.1 * fb + 0.02 * np.trace(B) / np.sqrt(1500) * 10
    if bs is not None and bs >= k and not avg:
        slack = 1e-5 * np.trace(B)
    mon.le("barycenter-stochastic", objective(C, w, Cb) - fb, slack, "stochastic barycenter is far from the minimum")
    mon.raises("rejects-bad-arguments", lambda: quiet(ot.gaussian.bures_wasserstein_barycenter, m, C, method="nope"), ValueError, "unknown method")
    mon.raises("rejects-bad-arguments", lambda: quiet(ot.gaussian.bures_wasserstein_barycenter, m, C, method="stochastic_gradient_descent", batch_size=0), ValueError, "batch size 0")


@core.family(FAMILIES, 50, weight=2)
def empirical_barycenter(mon, rng, idx):
    d, k = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    X = [rng.normal(size=(int(rng.integers(d + 2, 15)), d)) @ rng.normal(size=(d, d)) + rng.normal(size=d) for _ in range(k)]
    w = [gen.weights(rng, len(x))[:, None] for x in X] if rng.random() < 0.5 else None
    wt = gen.weights(rng, k) if rng.random() < 0.5 else None
    bias, reg = bool(rng.random() < 0.6), float(gen.pick(rng, (1e-2, 0.3)))
    mon.case(*X, wt, bias=bias, reg=reg)
    i0 = [x.copy() for x in X]
    mb, Cb, log = quiet(ot.gaussian.empirical_bures_wasserstein_barycenter, X, reg=reg, weights=wt, w=w, bias=bias, log=True)
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(i0, X)), "inputs modified")
    p = [np.ones(len(x)) / len(x) for x in X] if w is None else [u[:, 0] / u.sum() for u in w]
    m = np.array([pi @ x for pi, x in zip(p, X)]) * (1.0 if bias else 0.0)
    C = np.array([((x - mi) * pi[:, None]).T @ (x - mi) + reg * np.eye(d) for x, mi, pi in zip(X, m, p)])
    q = np.ones(k) / k if wt is None else wt
    mon.close("barycenter-mean", mb, q @ m, atol=1e-11 * (1 + np.abs(m).max()), rtol=0, msg="mean of the empirical barycenter")
    if float(log["final_diff"]) <= 1e-6:
        r = rootm(Cb)
        F = sum(pi * rootm(r @ Ci @ r) for pi, Ci in zip(q, C))
        mon.le("barycenter-fixed-point", float(np.abs(F - Cb).max()), 1e-4 * float(np.abs(C).max()), "empirical barycenter is not a fixed point at the sample moments")


def ggw2(A, B):
    a, b = np.sort(np.linalg.eigvalsh(A))[::-1], np.sort(np.linalg.eigvalsh(B))[::-1]
    k = max(len(a), len(b))
    a, b = np.r_[a, np.zeros(k - len(a))], np.r_[b, np.zeros(k - len(b))]
    s = min(np.shape(A)[0], np.shape(B)[0])
    return 4 * (a.sum() - b.sum()) ** 2 + 8 * ((a - b) ** 2).sum()


@core.family(FAMILIES, 200)
def gaussian_gw(mon, rng, idx):
    m, n = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    mon.event("m>n" if m > n else "m<n" if m < n else "m=n")
    Cs, Ct = cov(rng, m), cov(rng, n)
    mus, mut = rng.normal(size=(1, m)), rng.normal(size=(1, n))
    mon.case(Cs, Ct, mus, mut)
    G, log = ot.gaussian.gaussian_gromov_wasserstein_distance(Cs, Ct, log=True)
    sc = (np.trace(Cs) + np.trace(Ct)) ** 2
    mon.close("ggw-formula", float(G) ** 2, ggw2(Cs, Ct), atol=1e-11 * sc, rtol=1e-9, msg="squared Gaussian GW distance")
    mon.close("ggw-symmetric", float(ot.gaussian.gaussian_gromov_wasserstein_distance(Ct, Cs)), float(G), atol=1e-7 * np.sqrt(sc), rtol=1e-9, msg="symmetry")
    ds, dt = np.sort(np.linalg.eigvalsh(Cs))[::-1], np.sort(np.linalg.eigvalsh(Ct))[::-1]
    if True:
        mon.close("ggw-log", log["d_s"], ds, atol=1e-10 * ds[0], rtol=0, msg="source spectrum")
        mon.close("ggw-log", log["d_t"], dt, atol=1e-10 * dt[0], rtol=0, msg="target spectrum")
    k = min(m, n)
    sg = rng.choice([-1.0, 1.0], k) if rng.random() < 0.6 else None
    A, b, lg = ot.gaussian.gaussian_gromov_wasserstein_mapping(mus, mut, Cs, Ct, sign_eigs=sg, log=True)
    judge_gw(mon, A, b, mus, mut, Cs, Ct, np.ones(k) if sg is None else sg, lg)


def judge_gw(mon, A, b, mus, mut, Cs, Ct, sg, lg):
    A, b = np.asarray(A), np.asarray(b)
    m, n = len(Cs), len(Ct)
    k = min(m, n)
    mon.true("shapes", A.shape == (m, n) and b.shape == (1, n), f"{A.shape} {b.shape}")
    w, v = np.linalg.eigh(Ct)
    o = np.argsort(w)[::-1][:k]
    top = (v[:, o] * w[o]) @ v[:, o].T
    mon.close("ggw-push", A.T @ Cs @ A, top, atol=1e-8 * np.abs(Ct).max(), rtol=0, msg="covariance of the image (leading part of the target spectrum)")
    mon.close("ggw-push-mean", mus @ A + b, mut, atol=1e-10 * (1 + np.abs(A).max()) * (1 + np.abs(mus).max()), rtol=0, msg="mean of the image")
    # principal axes are sent on principal axes with the requested signs
    Us, Ut = np.asarray(lg["U_s"])[:, :k], np.asarray(lg["U_t"])[:, :k]
    ds, dt = np.asarray(lg["d_s"])[:k], np.asarray(lg["d_t"])[:k]
    mon.true("ggw-sorted", (np.diff(lg["d_s"]) <= 0).all() and (np.diff(lg["d_t"]) <= 0).all(), "spectra not in decreasing order")
    mon.close("ggw-axes", Us.T @ A @ Ut, np.diag(sg * np.sqrt(dt / ds)), atol=1e-8 * np.sqrt(dt.max() / ds.min()), rtol=0, msg="signed scaling of principal axes")


@core.family(FAMILIES, 150)
def empirical_gw(mon, rng, idx):
    d1, d2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    n, m = int(rng.integers(d1 + 3, 20)), int(rng.integers(d2 + 3, 20))
    xs, xt = rng.gamma(1.0, size=(n, d1)) @ rng.normal(size=(d1, d1)), rng.gamma(1.0, size=(m, d2)) @ rng.normal(size=(d2, d2))
    ws = wt = None
    if rng.random() < 0.15:
        # clouds symmetric about their mean have no skewness
        mon.event("zero-skewness")
        z = np.round(np.abs(rng.normal(size=(5, d1))) * 4) / 4
        xs = np.vstack([z, -z])
        n = 10
    elif rng.random() < 0.5:
        ws, wt = gen.weights(rng, n, positive=True)[:, None] * 2, gen.weights(rng, m, positive=True)[:, None]
    k = min(d1, d2)
    sg = None
    r = rng.random()
    if r < 0.4:
        sg = "skewness"
    elif r < 0.7:
        sg = rng.choice([-1.0, 1.0], k)
    p = np.ones(n) / n if ws is None else ws[:, 0] / ws.sum()
    q = np.ones(m) / m if wt is None else wt[:, 0] / wt.sum()
    ms, mt = (p @ xs)[None], (q @ xt)[None]
    Cs, Ct = ((xs - ms) * p[:, None]).T @ (xs - ms), ((xt - mt) * q[:, None]).T @ (xt - mt)
    if np.linalg.cond(Cs) > 1e6 or np.linalg.cond(Ct) > 1e6:
        raise core.Skip
    mon.case(xs, xt, ws, wt, sign=str(sg))
    A, b, lg = ot.gaussian.empirical_gaussian_gromov_wasserstein_mapping(xs, xt, ws=ws, wt=wt, sign_eigs=sg, log=True)
    if isinstance(sg, str):
        ys, yt = (xs - ms) @ np.asarray(lg["U_s"])[:, :k], (xt - mt) @ np.asarray(lg["U_t"])[:, :k]
        s = np.sign((p @ ys ** 3) * (q @ yt ** 3))
        A_ = np.asarray(lg["U_s"])[:, :k].T @ np.asarray(A) @ np.asarray(lg["U_t"])[:, :k]
        clear = np.abs((p @ ys ** 3) * (q @ yt ** 3)) > 1e-9 * np.abs(ys).max() ** 3 * np.abs(yt).max() ** 3
        got = np.sign(np.diag(A_))
        mon.true("ggw-skewness", (got[clear] == s[clear]).all(), "a principal axis is not oriented by the skewness")
        sg = np.where(clear, s, got)
        mon.true("ggw-skewness", (sg != 0).all(), "a principal axis is collapsed")
    judge_gw(mon, A, b, ms, mt, Cs, Ct, np.ones(k) if sg is None else sg, lg)


def gmm(rng, d, k):
    return rng.normal(size=(k, d)) * 2, np.array([cov(rng, d, 10.0, scale=10 ** rng.uniform(-0.5, 0.5)) for _ in range(k)]), gen.weights(rng, k, "dirichlet", positive=True)


@core.family(FAMILIES, 120, weight=2)
def mixtures(mon, rng, idx):
    d, k, l = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 5))
    ms, Cs, ws = gmm(rng, d, k)
    mt, Ct, wt = gmm(rng, d, l)
    if rng.random() < 0.2 and k > 1:
        ws[0] = 0
        ws /= ws.sum()
    x = rng.normal(size=(int(rng.integers(1, 6)), d)) * 2
    if rng.random() < 0.3:
        x[0] += 30  # far in the tails
    mon.case(ms, Cs, ws, mt, Ct, wt, x)
    D = np.array([[bures2(A, B) for B in Ct] for A in Cs]) + ((ms[:, None] - mt[None]) ** 2).sum(-1)
    g = ot.gmm
    sc = 1 + D.max() + np.trace(Cs, axis1=1, axis2=2).max()
    mon.close("gmm-bures", g.dist_bures_squared(ms, mt, Cs, Ct), D, atol=1e-9 * sc, rtol=0, msg="squared Bures costs")
    v, P0 = oracles.lp_transport(ws, wt, D)
    mon.close("gmm-cost", float(g.gmm_ot_loss(ms, mt, Cs, Ct, ws, wt)), v, atol=1e-8 * sc, rtol=0, msg="mixture OT cost is not the LP value over Bures costs")
    P = np.asarray(g.gmm_ot_plan(ms, mt, Cs, Ct, ws, wt))
    mon.le("gmm-plan", oracles.marg_err(P, ws, wt), 1e-9, "marginals of the component plan")
    mon.close("gmm-plan", float((P * D).sum()), v, atol=1e-8 * sc, rtol=0, msg="component plan is not optimal")
    lp = np.array([multivariate_normal(ms[i], Cs[i]).logpdf(x).reshape(-1) for i in range(k)])
    for i in range(k):
        mon.close("logpdf", g.gaussian_logpdf(x, ms[i], Cs[i]), lp[i], atol=1e-8, rtol=1e-9, msg="Gaussian log-density")
        mon.close("logpdf", g.gaussian_pdf(x, ms[i], Cs[i]), np.exp(lp[i]), atol=1e-12, rtol=1e-7, msg="Gaussian density")
    mon.close("gmm-density", g.gmm_pdf(x, ms, Cs, ws), ws @ np.exp(lp), atol=1e-12, rtol=1e-7, msg="mixture density")
    use = None if rng.random() < 0.5 else P
    # posterior weighted component maps
    T = np.zeros((k, l, len(x), d))
    for i in range(k):
        for j in range(l):
            r = rootm(Cs[i])
            ri = np.linalg.inv(r)
            A = ri @ rootm(r @ Ct[j] @ r) @ ri
            T[i, j] = (x - ms[i]) @ A + mt[j]
    L = lp - lp[ws > 0].max(0)
    L[ws == 0] = -np.inf
    post = np.exp(L) / (ws @ np.exp(L))
    ref = np.einsum("ij,in,ijnd->nd", P, post, T)
    got = g.gmm_ot_apply_map(x, ms, mt, Cs, Ct, ws, wt, plan=use)
    mon.close("gmm-map", got, ref, atol=1e-7 * (1 + np.abs(T).max()), rtol=0, msg="barycentric mixture map")
    s = int(rng.integers(100))
    R = g.gmm_ot_apply_map(x, ms, mt, Cs, Ct, ws, wt, plan=use, method="rand", seed=s)
    R2 = g.gmm_ot_apply_map(x, ms, mt, Cs, Ct, ws, wt, plan=use, method="rand", seed=s)
    mon.true("gmm-map-seed", np.array_equal(R, R2), "same seed, different images")
    for q in range(len(x)):
        e = np.abs(T[:, :, q] - R[q]).max(-1)
        e[P <= 0] = np.inf
        mon.le("gmm-map-random", float(e.min()), 1e-7 * (1 + np.abs(T).max()), "random image is not the image by a component map of the plan")
    # density of the plan: supported by the graphs of the component maps
    i, j = np.unravel_index(np.argmax(P), P.shape)
    y = np.vstack([T[i, j, :1], T[i, j, :1] + 5.0])
    at = 1e-3
    got = np.asarray(g.gmm_ot_plan_density(x[:1], y, ms, mt, Cs, Ct, ws, wt, plan=use, atol=at))
    near = np.linalg.norm(T[:, :, :1] - y[None, None], axis=-1)
    if not ((near > 0.9 * at) & (near < 1.1 * at)).any():
        ref = np.einsum("ij,i,ijy->y", P, np.exp(lp[:, 0]), (near < at) * 1.0)
        mon.close("gmm-plan-density", got.ravel(), ref, atol=1e-12, rtol=1e-6, msg="density of the mixture plan")


@core.family(FAMILIES, 60)
def sampled_map(mon, rng, idx):
    """Random mixture maps follow the posterior-weighted plan (one point, many draws)."""
    d, k, l = 1, int(rng.integers(2, 4)), int(rng.integers(2, 4))
    ms, Cs, ws = gmm(rng, d, k)
    mt, Ct, wt = gmm(rng, d, l)
    ms /= 4
    x = np.repeat(rng.normal(size=(1, d)) * 0.5, 600, axis=0)
    mon.case(ms, Cs, ws, mt, Ct, wt, x[:1])
    P = np.asarray(ot.gmm.gmm_ot_plan(ms, mt, Cs, Ct, ws, wt))
    R = np.asarray(ot.gmm.gmm_ot_apply_map(x, ms, mt, Cs, Ct, ws, wt, plan=P, method="rand", seed=idx)).ravel()
    g = np.array([multivariate_normal(ms[i], Cs[i]).pdf(x[0]) for i in range(k)])
    p = P * g[:, None] / (ws @ g)
    T = np.array([[(x[0, 0] - ms[i, 0]) * np.sqrt(Ct[j, 0, 0] / Cs[i, 0, 0]) + mt[j, 0] for j in range(l)] for i in range(k)])
    near = np.abs(R[:, None] - T.ravel()[None]).argmin(1)
    f = np.bincount(near, minlength=k * l) / 600
    mon.le("gmm-map-frequencies", float(np.abs(f - p.ravel()).max()), 0.13, "frequencies of the component maps (6 standard deviations)")


@core.family(FAMILIES, 40, weight=5)
def mixture_barycenter(mon, rng, idx):
    d, K, n = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    mix = [gmm(rng, d, int(rng.integers(1, 4))) for _ in range(K)]
    m0, C0, wb = gmm(rng, d, n)
    lam = gen.weights(rng, K, "dirichlet", positive=True)
    wbar = None
    if rng.random() < 0.6:
        wbar = wb
        if n > 1:
            mon.event("non-uniform-wbar")
    meth = str(gen.pick(rng, ("euclidean", "bures")))
    its = int(rng.integers(0, 4))
    mon.case(m0, C0, wbar, lam, *[y for x in mix for y in x], method=meth, its=its)
    ml, Cl, wl = [x[0] for x in mix], [x[1] for x in mix], [x[2] for x in mix]
    cp = [x.copy() for x in ml + Cl + wl + [m0, C0, lam]]
    M, C, log = quiet(ot.gmm.gmm_barycenter_fixed_point, ml, Cl, wl, m0.copy(), C0.copy(), lam, w_bar=wbar, iterations=its, log=True, barycentric_proj_method=meth)
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(cp, ml + Cl + wl + [m0, C0, lam])), "inputs modified")
    q0, q1 = m0.copy(), C0.copy()
    quiet(ot.gmm.gmm_barycenter_fixed_point, ml, Cl, wl, q0, q1, lam, w_bar=wbar, iterations=1, barycentric_proj_method=meth)
    mon.true("init-intact", np.array_equal(q0, m0) and np.array_equal(q1, C0), "the initial means and covariances are overwritten")
    mon.true("iteration-cap", len(log["means_its"]) == its + 1, "number of recorded iterates")
    mon.close("gmm-barycenter-step", log["means_its"][0], m0, atol=0, rtol=0, msg="first iterate is the initialisation")
    mon.true("gmm-barycenter-step", np.array_equal(log["means_its"][-1], M) and np.array_equal(log["covs_its"][-1], C), "last iterate is the result")
    u = np.ones(n) / n if wbar is None else wbar
    for t in range(its):
        a, S = log["means_its"][t], log["covs_its"][t]
        em, eC = [], []
        uniq = True
        for k in range(K):
            D = np.array([[bures2(A, B) for B in Cl[k]] for A in S]) + ((a[:, None] - ml[k][None]) ** 2).sum(-1)
            P = ot.emd(u, wl[k], D)
            alt = ot.emd(u, wl[k], D * (1 + 1e-6 * np.random.default_rng(t).normal(size=D.shape)))
            uniq &= bool(np.abs(P - alt).max() < 1e-9)
            P = P / u[:, None]
            em.append(P @ ml[k])
            if meth == "euclidean":
                eC.append(np.einsum("ij,jab->iab", P, Cl[k]))
            else:
                eC.append(np.array([quiet(ot.gaussian.bures_wasserstein_barycenter, ml[k], Cl[k], P[i])[1] for i in range(n)]))
        if not uniq:
            continue
        em, eC = np.array(em), np.array(eC)
        mon.close("gmm-barycenter-step", log["means_its"][t + 1], np.einsum("k,knd->nd", lam, em), atol=1e-8 * (1 + np.abs(em).max()), rtol=0, msg="means of the next iterate")
        for i in range(n):
            B = log["covs_its"][t + 1][i]
            r = rootm(B)
            F = sum(lk * rootm(r @ Ci @ r) for lk, Ci in zip(lam, eC[:, i]))
            mon.le("gmm-barycenter-step", float(np.abs(F - B).max()), 1e-4 * np.abs(eC).max(), "covariance of the next iterate is not the Bures barycenter of the projections")
