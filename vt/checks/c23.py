"""C23 - maps estimated from samples match their definition.

Every call of the mapping estimators is observed and judged by the defining
equations of what it returned: the linear Wasserstein map must push source
moments on target moments, be symmetric positive, have the inverse map as its
inverse and pay exactly the Bures distance; the joint OT/mapping alternation is
run step by step (iteration caps 0, 1, 2, ...) and its logged losses must be the
documented objective, never increase, with a feasible plan and the ridge (or
kernel ridge) regression of that plan as map; nearest-Brenier potentials must
satisfy the strong-convexity / smoothness interpolation inequalities inside
each class, and the two predicted potentials must bracket every admissible
extension."""
import warnings

import numpy as np
import ot

from vt import core, gen, oracles

ASSUMPTIONS = [
    "moment identities are judged for covariances with condition number up to 1e4, with a tolerance proportional to it",
    "nearest-Brenier values come from an interior-point solver (cvxpy): interpolation inequalities are judged to 1e-4 relative to the data scale",
    "mapping losses may increase by rounding only (1e-8 relative)",
]
BACKENDS = ()
REQUIRED = ["push-covariance", "push-mean", "map-cost", "map-inverse", "loss-descent", "loss-definition", "plan-feasible", "map-is-regression", "ssnb-interpolation", "ssnb-bracket"]
REQUIRED_EVENTS = {"bias": 10, "no-bias": 10, "weighted-samples": 10, "classes": 5, "moved-plan": 3}
FAMILIES = {}


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def cov(rng, d, cond):
    q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    lam = 10 ** (rng.uniform(-np.log10(cond) / 2, np.log10(cond) / 2, d))
    return (q * lam) @ q.T * 10 ** rng.uniform(-1.5, 1.5)


def rootm(C):
    w, v = np.linalg.eigh((C + C.T) / 2)
    return (v * np.sqrt(np.maximum(w, 0))) @ v.T


def judge_map(mon, A, b, ms, mt, Cs, Ct, tag=""):
    A, b = np.asarray(A), np.asarray(b)
    mon.finite("finite" + tag, A, "map")
    cond = max(np.linalg.cond(Cs), np.linalg.cond(Ct))
    tol = 1e-11 * cond + 1e-9
    sc = np.abs(Ct).max()
    mon.le("map-symmetric" + tag, float(np.abs(A - A.T).max()), tol * np.abs(A).max(), "the Monge map between Gaussians is symmetric")
    mon.le("map-monotone" + tag, -float(np.linalg.eigvalsh((A + A.T) / 2).min()), 0.0, "the Monge map is the gradient of a convex function")
    mon.close("push-covariance" + tag, A.T @ Cs @ A, Ct, atol=tol * sc, rtol=0, msg="covariance of the image")
    mon.close("push-mean" + tag, np.ravel(ms) @ A + np.ravel(b), np.ravel(mt), atol=1e-11 * (1 + np.abs(A).max() * np.abs(ms).sum() + np.abs(mt).max()), rtol=0, msg="mean of the image")
    # cost of the map = Bures metric computed by an independent formula
    I = np.eye(len(A))
    pay = np.trace((A - I) @ Cs @ (A - I)) + ((np.ravel(ms) - np.ravel(mt)) ** 2).sum()
    rs = rootm(Cs)
    bw = np.trace(Cs) + np.trace(Ct) - 2 * np.sqrt(np.maximum(np.linalg.eigvalsh(rs @ Ct @ rs), 0)).sum() + ((np.ravel(ms) - np.ravel(mt)) ** 2).sum()
    mon.close("map-cost" + tag, pay, bw, atol=tol * (np.trace(Cs) + np.trace(Ct)) * 10 + 1e-10 * bw, rtol=0, msg="transport cost of the map is not the Bures distance")


@core.family(FAMILIES, 250)
def gaussian_map(mon, rng, idx):
    d = int(rng.integers(1, 7))
    cond = float(gen.pick(rng, (2.0, 100.0, 1e4)))
    Cs, Ct = cov(rng, d, cond), cov(rng, d, cond)
    if rng.random() < 0.1:
        Ct = Cs.copy()
    ms, mt = rng.normal(size=d) * 10 ** rng.uniform(-2, 2), rng.normal(size=d) * 10 ** rng.uniform(-2, 2)
    if rng.random() < 0.5:
        ms, mt = ms[None], mt[None]
    mon.case(Cs, Ct, ms, mt, cond=cond)
    copies = [x.copy() for x in (ms, mt, Cs, Ct)]
    A, b = ot.gaussian.bures_wasserstein_mapping(ms, mt, Cs, Ct)
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(copies, (ms, mt, Cs, Ct))), "inputs modified")
    judge_map(mon, A, b, ms, mt, Cs, Ct)
    A2, b2, log = ot.gaussian.bures_wasserstein_mapping(ms, mt, Cs, Ct, log=True)
    mon.true("log-same", np.array_equal(A, A2) and np.array_equal(b, b2), "log changes the map")
    kap = max(np.linalg.cond(Cs), np.linalg.cond(Ct))
    mon.close("log-roots", log["Cs12"] @ log["Cs12"], Cs, atol=1e-10 * np.abs(Cs).max(), rtol=0, msg="Cs12 is not the square root")
    mon.close("log-roots", log["Cs12inv"] @ log["Cs12"], np.eye(d), atol=1e-12 * kap + 1e-10, rtol=0, msg="Cs12inv is not the inverse root")
    B, _ = ot.gaussian.bures_wasserstein_mapping(mt, ms, Ct, Cs)
    mon.close("map-inverse", A @ B, np.eye(d), atol=1e-10 * kap + 1e-9, rtol=0, msg="reverse map is not the inverse")


@core.family(FAMILIES, 200)
def empirical_map(mon, rng, idx):
    d = int(rng.integers(1, 5))
    n, m = int(rng.integers(d + 2, 25)), int(rng.integers(d + 2, 25))
    sh = rng.normal(size=d) * gen.pick(rng, (0.0, 1.0, 5.0))
    xs, xt = rng.normal(size=(n, d)) @ rng.normal(size=(d, d)) + sh, rng.normal(size=(m, d)) @ rng.normal(size=(d, d)) - sh
    if rng.random() < 0.15:
        xs[:, -1] = xs[:, 0]  # degenerate cloud: the regularisation makes it invertible
    bias = bool(rng.random() < 0.6)
    reg = float(gen.pick(rng, (1e-3, 1e-1, 1.0)))
    ws = wt = None
    if rng.random() < 0.6:
        mon.event("weighted-samples")
        s = float(gen.pick(rng, (1.0, 1.0, 3.0)))  # unnormalised weights are normalised
        ws, wt = gen.weights(rng, n)[:, None] * s, gen.weights(rng, m)[:, None]
        if rng.random() < 0.3:
            wt = None
    mon.event("bias" if bias else "no-bias")
    mon.case(xs, xt, ws, wt, reg=reg, bias=bias)
    p = np.ones(n) / n if ws is None else ws[:, 0] / ws.sum()
    q = np.ones(m) / m if wt is None else wt[:, 0] / wt.sum()
    ms, mt = (p @ xs, q @ xt) if bias else (np.zeros(d), np.zeros(d))
    Cs = ((xs - ms) * p[:, None]).T @ (xs - ms) + reg * np.eye(d)
    Ct = ((xt - mt) * q[:, None]).T @ (xt - mt) + reg * np.eye(d)
    copies = [xs.copy(), xt.copy()]
    A, b, log = ot.gaussian.empirical_bures_wasserstein_mapping(xs, xt, reg=reg, ws=ws, wt=wt, bias=bias, log=True)
    mon.true("input-intact", np.array_equal(xs, copies[0]) and np.array_equal(xt, copies[1]), "inputs modified")
    sc = 1e-10 * (1 + np.abs(xs).max() ** 2 + np.abs(xt).max() ** 2)
    mon.close("empirical-moments", log["Cs"], Cs, atol=sc, rtol=0, msg="source covariance")
    mon.close("empirical-moments", log["Ct"], Ct, atol=sc, rtol=0, msg="target covariance")
    judge_map(mon, A, b, ms, mt, Cs, Ct)
    A2, b2 = ot.gaussian.empirical_bures_wasserstein_mapping(xs, xt, reg=reg, ws=ws, wt=wt, bias=bias)
    mon.true("log-same", np.array_equal(A, A2) and np.array_equal(b, b2), "log changes the map")
    mon.true("shapes", np.shape(A) == (d, d) and np.shape(b) == (1, d), f"shapes {np.shape(A)} {np.shape(b)}")


def joint(mon, rng, kernel):
    d, dt = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if not kernel:
        dt = d
    else:
        dt = d  # the linear cost is between the samples themselves
    n, m = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    xs, xt = rng.normal(size=(n, d)) * 2, rng.normal(size=(m, dt)) * 2 + rng.normal(size=dt)
    mu = float(10 ** rng.uniform(-2, 1))
    eta = float(10 ** rng.uniform(-4, 0.5))
    bias = bool(rng.random() < 0.5)
    mon.event("bias" if bias else "no-bias")
    kt = "linear" if not kernel else str(gen.pick(rng, ("gaussian", "rbf")))
    sigma = float(gen.pick(rng, (0.5, 1.0, 3.0)))
    its = int(gen.pick(rng, (0, 1, 2, 5, 30)))
    inner = int(gen.pick(rng, (1, 3, 10)))
    mon.case(xs, xt, mu=mu, eta=eta, bias=bias, kernel=kt if kernel else "none", sigma=sigma, its=its, inner=inner)
    copies = xs.copy(), xt.copy()
    kw = dict(mu=mu, eta=eta, bias=bias, numItermax=its, numInnerItermax=inner, stopThr=1e-9, log=True)
    if kernel:
        G, L, log = quiet(ot.mapping.joint_OT_mapping_kernel, xs, xt, kerneltype=kt, sigma=sigma, **kw)
    else:
        G, L, log = quiet(ot.mapping.joint_OT_mapping_linear, xs, xt, **kw)
    mon.true("input-intact", np.array_equal(xs, copies[0]) and np.array_equal(xt, copies[1]), "inputs modified")
    G, L = np.asarray(G), np.asarray(L)
    mon.finite("finite", L, "map")
    mon.le("plan-feasible", oracles.marg_err(G, np.ones(n) / n, np.ones(m) / m), 1e-9, "marginals of the plan")
    mon.le("plan-feasible", -float(G.min()), 1e-12, "negative plan entries")
    M = n * ot.dist(xs, xt)
    T = n * G @ xt
    if not kernel:
        X1 = np.hstack([xs, np.ones((n, 1))]) if bias else xs
        D = np.eye(X1.shape[1])
        if bias:
            D[-1, -1] = 0
        I0 = np.eye(X1.shape[1])[:, :d] * (1 if not bias else np.r_[np.ones(d), 0][:, None])
        pen = lambda L: float(((L - I0)[:d] ** 2).sum())
        gradL = 2 * X1.T @ (X1 @ L - T) + 2 * eta * D @ (L - I0)
    else:
        if kt == "linear":
            K = xs @ xs.T
        else:
            K = np.exp(-((xs[:, None] - xs[None]) ** 2).sum(-1) / (2 * sigma ** 2))
        X1, D = K, K
        if bias:
            X1 = np.hstack([K, np.ones((n, 1))])
            D = np.zeros((n + 1, n + 1))
            D[:n, :n], D[n, n] = K, 1
        pen = lambda L: float(np.trace(L.T @ D @ L))
        gradL = 2 * X1.T @ (X1 @ L - T) + 2 * eta * D @ L
    obj = lambda L: float(((X1 @ L - T) ** 2).sum() + mu * (G * M).sum() + eta * pen(L))
    v = [float(x) for x in log["loss"]]
    sc = max(1e-12, abs(v[0]))
    mon.close("loss-definition", v[-1], obj(L), atol=1e-7 * sc, rtol=1e-8, msg="last logged loss is not the objective of the returned (plan, map)")
    for u, w in zip(v, v[1:]):
        mon.le("loss-descent", w - u, 1e-8 * sc, "block coordinate step increased the objective")
    mon.true("iteration-cap", len(v) <= its + 1, f"{len(v) - 1} iterations for a cap of {its}")
    H = X1.T @ X1 + eta * D
    mon.le("map-is-regression", float(np.abs(gradL).max()), 1e-8 * (np.abs(H).sum(1).max() * (1 + np.abs(L).max()) + np.abs(X1.T @ T).max()), "the map does not minimise the objective for the returned plan")
    for _ in range(3):
        P = L + rng.normal(size=L.shape) * 10 ** rng.uniform(-4, 0) * (1 + np.abs(L).max())
        mon.le("map-beats-perturbation", obj(L) - obj(P), 1e-8 * sc + 1e-8 * abs(obj(P)), "a perturbed map has a lower objective")
    if its == 0:
        _, P0 = oracles.lp_transport(np.ones(n) / n, np.ones(m) / m, M)
        mon.close("initial-plan", float((G * M).sum()), float((np.asarray(P0) * M).sum()), atol=1e-8 * (1 + abs(M).max()), rtol=0, msg="without iterations the plan is the exact OT plan")
    else:
        e = ot.emd(np.ones(n) / n, np.ones(m) / m, M)
        if np.abs(e - G).max() > 1e-6:
            mon.event("moved-plan")
    kw["log"] = False
    r = quiet(ot.mapping.joint_OT_mapping_kernel, xs, xt, kerneltype=kt, sigma=sigma, **kw) if kernel else quiet(ot.mapping.joint_OT_mapping_linear, xs, xt, **kw)
    mon.true("log-same", np.array_equal(r[0], G) and np.array_equal(r[1], L), "log changes the result")


@core.family(FAMILIES, 120, weight=2)
def joint_linear(mon, rng, idx):
    joint(mon, rng, False)


@core.family(FAMILIES, 120, weight=2)
def joint_kernel(mon, rng, idx):
    joint(mon, rng, True)


def gaps(phi, G, X, l, L, i, j):
    """phi_i - lower bound from j; non-negative iff the pair is interpolable."""
    c = 1 / (2 * (1 - l / L))
    return phi[i] - (phi[j] + G[j] @ (X[i] - X[j]) + c * (((G[i] - G[j]) ** 2).sum() / L + l * ((X[i] - X[j]) ** 2).sum() - 2 * l / L * (G[j] - G[i]) @ (X[j] - X[i])))


@core.family(FAMILIES, 24, weight=8, cpu_limit=200)
def ssnb(mon, rng, idx):
    n, d, m = int(rng.integers(2, 7)), int(rng.integers(1, 3)), int(rng.integers(1, 4))
    X, V = rng.normal(size=(n, d)), rng.normal(size=(n, d)) * float(gen.pick(rng, (0.5, 1.0, 3.0)))
    l = float(gen.pick(rng, (0.2, 0.6, 0.9)))
    L = float(gen.pick(rng, (1.0, 1.4, 3.0)))
    cl = Yc = None
    Y = rng.normal(size=(m, d))
    if rng.random() < 0.5:
        cl = rng.integers(0, 2, n)
        Yc = rng.choice(cl, m)
        mon.event("classes")
    a = b = None
    if rng.random() < 0.5:
        a, b = gen.weights(rng, n, positive=True), gen.weights(rng, n, positive=True)
    init = str(gen.pick(rng, ("barycentric", "target")))
    its = int(rng.integers(1, 4))
    mon.case(X, V, cl, a, b, Y, l=l, L=L, init=init, its=its)
    kw = dict(strongly_convex_constant=l, gradient_lipschitz_constant=L)
    phi, G, log = quiet(ot.mapping.nearest_brenier_potential_fit, X, V, X_classes=cl, a=a, b=b, its=its, log=True, init_method=init, **kw)
    mon.finite("finite", G, "gradients")
    sc = 1 + np.abs(X).max() ** 2 * L + np.abs(V).max() ** 2 / l
    tol = 1e-4 * sc
    c = np.zeros(n) if cl is None else cl
    for i in range(n):
        for j in range(n):
            if c[i] == c[j]:
                mon.le("ssnb-interpolation", -gaps(phi, G, X, l, L, i, j), tol, "fitted values violate the strong convexity / smoothness inequality")
                if i != j:
                    dX, dG = X[i] - X[j], G[i] - G[j]
                    mon.le("ssnb-lipschitz", float(np.linalg.norm(dG) - L * np.linalg.norm(dX)), np.sqrt(tol) * 0.1, "gradient is not Lipschitz")
                    mon.le("ssnb-strongly-convex", float(l * dX @ dX - dG @ dX), tol, "potential is not strongly convex")
    p = np.ones(n) / n if a is None else a
    q = np.ones(n) / n if b is None else b
    vals = [x["value"] for x in log["its"]]
    mon.true("iteration-cap", len(vals) == its, "one problem per iteration")
    for u, w in zip(vals, vals[1:]):
        mon.le("ssnb-descent", w - u, tol, "alternation increased the transport cost")
    w2 = oracles.lp_transport(p, q, ot.dist(G, V))[0]
    mon.le("ssnb-value", w2 - vals[-1], tol, "cost of the last plan is below the optimal transport cost of the images")
    # a feasible competitor: gradients of the quadratic l..L potentials
    if its == 1 and init == "target":
        P = ot.emd(p, q, ot.dist(V, V))
        for _ in range(4):
            s = rng.uniform(l, L)
            t = rng.normal(size=d) + P.sum(0) @ V
            Gc = s * X + t
            mon.le("ssnb-optimal", vals[-1] - float((ot.dist(Gc, V) * P).sum()), tol, "a quadratic potential of the class has a lower cost")
    r = quiet(ot.mapping.nearest_brenier_potential_predict_bounds, X, phi, G, Y, X_classes=cl, Y_classes=Yc, **kw)
    plu, Glu = np.asarray(r[0]), np.asarray(r[1])
    mon.true("shapes", plu.shape == (2, m) and Glu.shape == (2, m, d), "shapes of the bounds")
    yc = np.zeros(m) if Yc is None else Yc
    for y in range(m):
        mon.le("ssnb-bracket", float(plu[0, y] - plu[1, y]), tol, "lower potential above the upper one")
        J = [j for j in range(n) if c[j] == yc[y]]
        lo, up = -np.inf, np.inf
        for j in J:
            XX, pl, gl = np.vstack([X, Y[y]]), np.r_[phi, plu[0, y]], np.vstack([G, Glu[0, y]])
            mon.le("ssnb-lower-consistent", -gaps(pl, gl, XX, l, L, n, j), tol, "lower image violates an interpolation inequality")
            pu, gu = np.r_[phi, plu[1, y]], np.vstack([G, Glu[1, y]])
            mon.le("ssnb-upper-consistent", -gaps(pu, gu, XX, l, L, j, n), tol, "upper image violates an interpolation inequality")
            # tangent-quadratic bounds every extension satisfies
            dx = Y[y] - X[j]
            lo = max(lo, phi[j] + G[j] @ dx + l / 2 * dx @ dx)
            up = min(up, phi[j] + G[j] @ dx + L / 2 * dx @ dx)
        mon.le("ssnb-tangent", lo - plu[0, y], tol, "lower potential below the strong-convexity bound")
        mon.le("ssnb-tangent", plu[1, y] - up, tol, "upper potential above the smoothness bound")
    i = int(rng.integers(n))
    r = quiet(ot.mapping.nearest_brenier_potential_predict_bounds, X, phi, G, X[i:i + 1], X_classes=cl, Y_classes=None if cl is None else cl[i:i + 1], **kw)
    mon.close("ssnb-at-samples", np.asarray(r[0])[:, 0], np.array([phi[i]] * 2), atol=5 * tol, rtol=0, msg="potentials do not interpolate the fitted value")


@core.family(FAMILIES, 20)
def contracts(mon, rng, idx):
    X, V = rng.normal(size=(3, 2)), rng.normal(size=(3, 2))
    mon.case(X, V)
    f = ot.mapping.nearest_brenier_potential_fit
    for kw, n in ((dict(strongly_convex_constant=1.0, gradient_lipschitz_constant=1.0), "l=L"), (dict(strongly_convex_constant=-0.1), "l<0"), (dict(X_classes=np.zeros(4)), "classes"), (dict(init_method="nope"), "init")):
        mon.raises("rejects-bad-arguments", lambda: quiet(f, X, V, its=1, **kw), (AssertionError, ValueError), n)
    mon.raises("rejects-bad-arguments", lambda: quiet(f, X, V[:2], its=1), (AssertionError, ValueError), "shapes")
