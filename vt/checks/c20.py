"""Smooth and stochastic regularised OT.  Conjugates are decided by their variational definition
(value attained at the returned maximiser, no random competitor above it, gradients equal to finite
differences, supports enumerated for the sparse cap), (semi-)dual objectives by weak duality against
random couplings and by the partial-maximisation identity, solvers by a primal-dual gap certificate:
the returned potentials' dual value against the primal value of the returned plan rounded to a
feasible one, so optimality is proved instance by instance.  Stochastic solvers: gradients against
finite differences of the documented semi-dual, exact c-transforms and Gibbs form, averages of
mini-batch gradients over every batch, and convergence to the independent log-domain entropic plan
for non-uniform weights."""

import itertools
import warnings

import numpy as np
from scipy.special import logsumexp

import ot
from ot import smooth, stochastic as sto
from vt import core, gen, oracles
from vt.checks.c16 import entropic_plan

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("conjugate-value", "conjugate-max", "conjugate-gradient", "semi-value", "semi-simplex", "semi-max", "semi-gradient", "cap", "weak-duality",
            "dual-value", "dual-gradient", "semi-dual-value", "semi-dual-gradient", "partial-max", "gap", "plan-from-potentials", "column-marginals",
            "dual-equals-semi-dual", "entropic-plan", "reported-value", "method-used", "coordinate-gradient", "c-transform", "batch-gradient-mean", "loss-gradient",
            "gibbs-form", "row-marginals", "convergence", "unknown-method")
REQUIRED_EVENTS = ("zero-weights", "sparse", "cap-active", "cap-inactive", "l2", "entropic", "converged", "sag", "asgd", "sgd", "non-uniform", "small-reg")
KINDS = {"l2": "l2", "entropic": "kl", "sparse": "sparsity_constrained"}


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return fn(*a, **k)


def make(kind, reg, cap):
    if kind == "l2":
        return smooth.SquaredL2(gamma=reg)
    if kind == "entropic":
        return smooth.NegEntropy(gamma=reg)
    return smooth.SparsityConstrained(max_nz=cap, gamma=reg)


def omega(kind, reg, T):
    """Documented regularisation of a column (or a whole plan)."""
    if kind == "entropic":
        return reg * float(np.sum(T[T > 0] * np.log(T[T > 0])))
    return 0.5 * reg * float(np.sum(T ** 2))


def conj(kind, reg, X, cap):
    """sup_t>=0 <t, x> - Omega(t), written from the definition."""
    if kind == "entropic":
        return reg * np.exp(X / reg - 1).sum(0)
    P = np.maximum(X, 0)
    if kind == "sparse":
        P = np.sort(P, axis=0)[::-1][:cap]
    return (P ** 2).sum(0) / (2 * reg)


def semi_conj(kind, reg, x, b, cap):
    """max over (sparse) simplex of <y, x> - Omega(b y)/b for one column."""
    if kind == "entropic":
        return reg * logsumexp(x / reg) - reg * np.log(b)

    def dense(z):
        u = np.sort(z)[::-1] / (b * reg)
        k = np.arange(1, len(u) + 1)
        th = (np.cumsum(u) - 1) / k
        r = np.flatnonzero(u > th)[-1]
        y = np.maximum(z / (b * reg) - th[r], 0)
        return float(z @ y - 0.5 * reg * b * y @ y)

    if kind == "l2" or cap >= len(x):
        return dense(x)
    return max(dense(x[list(s)]) for s in itertools.combinations(range(len(x)), cap))


def draw(mon, rng, n, m, zero=True):
    kind = gen.pick(rng, ("l2", "entropic", "sparse"))
    C = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "dupes")))
    C = C / max(C.max(), 1e-9) * float(10 ** rng.uniform(-1, 1.5))
    reg = float(10 ** rng.uniform(-1.5, 1.5)) * max(float(np.abs(C).max()), 1e-9) * (0.3 if kind == "entropic" else 1.0)
    cap = int(rng.integers(1, n + 1))
    a, b = gen.weights(rng, n, positive=not zero), gen.weights(rng, m, positive=not zero)
    if (a == 0).any() or (b == 0).any():
        mon.event("zero-weights")
    mon.event(kind)
    if kind == "sparse":
        mon.event("cap-active" if cap < n else "cap-inactive")
    return kind, C, reg, cap, a, b


@core.family(FAMILIES, 500)
def conjugates(mon, rng, idx):
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 5))
    kind, C, reg, cap, a, b = draw(mon, rng, n, m, False)
    R = make(kind, reg, cap)
    X = rng.normal(size=n)[:, None] * C.max() * rng.uniform(0, 2) + rng.normal(size=m) * C.max() * 0.3 - C
    if rng.random() < 0.2:
        X = np.round(X / C.max(), 1) * C.max()
        mon.event("ties")
    mon.case(dict(kind=kind, reg=reg, cap=cap, X=X, b=b))
    X0 = X.copy()
    val, G = R.delta_Omega(X.copy() if rng.random() < 0.5 else X)
    mon.true("input-intact", np.array_equal(X, X0), "delta_Omega modified its argument")
    X = X0.copy()
    val, G = np.asarray(val), np.asarray(G)
    sc = float(np.abs(val).max() + np.abs(X).max() ** 2 / reg + np.abs(X).max()) + 1e-300
    mon.close("conjugate-value", val, conj(kind, reg, X, cap), atol=1e-9 * sc, rtol=1e-9, msg=f"{kind}: conjugate of Omega")
    mon.true("conjugate-nonnegative", (G >= 0).all(), f"{kind}: negative maximiser {G.min()}")
    for j in range(m):
        own = float(G[:, j] @ X[:, j]) - omega(kind, reg, G[:, j])
        mon.le("conjugate-max", abs(own - val[j]), 1e-8 * sc, f"{kind}: the returned maximiser does not attain the conjugate")
        if kind == "sparse":
            mon.le("cap", int((G[:, j] > 0).sum()), cap, "more nonzeros than the cap")
    e = 1e-6 * max(1.0, np.abs(X).max())
    if kind != "sparse":
        for j in range(m):
            fd = oracles.fd_grad(lambda x: float(np.sum(R.delta_Omega(x[:, None])[0])), X[:, j], e)
            mon.close("conjugate-gradient", G[:, j], fd, atol=1e-4 * (np.abs(G).max() + e / reg) + 1e-9 * sc / e, rtol=1e-4, msg=f"{kind}: gradient of the conjugate")
    # one-column API
    v1, g1 = R.delta_Omega(X[:, 0].copy())
    mon.close("vector-form", v1, val[0], atol=1e-9 * sc, rtol=1e-9, msg="vector and matrix conjugates differ")
    mon.close("vector-form", g1 if kind != "sparse" else np.sort(g1), G[:, 0] if kind != "sparse" else np.sort(G[:, 0]), atol=1e-9 * (1 + np.abs(G).max()), rtol=1e-9, msg="vector and matrix maximisers differ")
    val, Y = R.max_Omega(X, b)
    val, Y = np.asarray(val), np.asarray(Y)
    mon.true("semi-simplex", (Y >= 0).all() and np.allclose(Y.sum(0), 1, atol=1e-9), f"{kind}: columns sum to {Y.sum(0)}")
    for j in range(m):
        ref = semi_conj(kind, reg, X[:, j], b[j], cap)
        s = np.abs(X[:, j]).max() + reg * (1 + abs(np.log(b[j])))
        mon.le("semi-value", abs(val[j] - ref), 1e-9 * s, f"{kind}: max_Omega {val[j]} instead of {ref}")
        own = float(Y[:, j] @ X[:, j]) - omega(kind, reg, b[j] * Y[:, j]) / b[j]
        mon.le("semi-max", abs(own - val[j]), 1e-8 * s, f"{kind}: the returned point does not attain the maximum")
        if kind == "sparse":
            mon.le("cap", int((Y[:, j] > 0).sum()), cap, "more nonzeros than the cap")
        else:
            def f(x, j=j):
                Z = X.copy()
                Z[:, j] = x
                return float(R.max_Omega(Z, b)[0][j])

            if kind == "l2" and s > 1e3 * b[j] * reg:
                continue    # the value itself is only known to eps * s / (b reg)
            h = 1e-5 * min(s, b[j] * reg) if kind == "l2" else 1e-5 * reg
            fd = oracles.fd_grad(f, X[:, j], h)
            mon.close("semi-gradient", Y[:, j], fd, atol=2e-4 + 1e-13 * s / h * 10, rtol=0, msg=f"{kind}: gradient of max_Omega")
    T = rng.random((n, m)) * (rng.random((n, m)) < 0.7)
    mon.close("omega", quiet(R.Omega, T), omega(kind, reg, T), atol=1e-9 * reg * (1 + abs(omega(kind, reg, T))), rtol=1e-9, msg=f"{kind}: Omega")


@core.family(FAMILIES, 500)
def objectives(mon, rng, idx):
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    kind, C, reg, cap, a, b = draw(mon, rng, n, m)
    R = make(kind, reg, cap)
    s = float(C.max())
    al, be = rng.normal(size=n) * s * rng.uniform(0, 2), rng.normal(size=m) * s * rng.uniform(0, 1)
    mon.case(dict(kind=kind, reg=reg, cap=cap, C=C, a=a, b=b, alpha=al, beta=be))
    X = al[:, None] + be - C
    obj, ga, gb = smooth.dual_obj_grad(al, be, a, b, C, R)
    ref = al @ a + be @ b - conj(kind, reg, X, cap).sum()
    sc = abs(ref) + np.abs(al).max() + np.abs(be).max() + float(np.abs(conj(kind, reg, X, cap)).sum())
    mon.le("dual-value", abs(obj - ref), 1e-9 * sc, f"{kind}: dual objective {obj} instead of {ref}")
    if kind != "sparse":
        h = 1e-6 * (s if kind == "l2" else min(reg, s))
        L = 1e-4 * (np.abs(ga).max() + np.abs(gb).max() + 1) + h * n * m / reg + 1e-12 * sc / h
        mon.close("dual-gradient", ga, oracles.fd_grad(lambda x: smooth.dual_obj_grad(x, be, a, b, C, R)[0], al, h), atol=L, rtol=1e-4, msg=f"{kind}: gradient in alpha")
        mon.close("dual-gradient", gb, oracles.fd_grad(lambda x: smooth.dual_obj_grad(al, x, a, b, C, R)[0], be, h), atol=L, rtol=1e-4, msg=f"{kind}: gradient in beta")
    G = smooth.get_plan_from_dual(al, be, C, R)
    gs = float(np.abs(G).max()) + 1
    mon.close("plan-from-potentials", a - G.sum(1), ga, atol=1e-9 * gs * m, rtol=1e-9, msg="gradient in alpha is not a minus the row sums of the plan")
    mon.close("plan-from-potentials", b - G.sum(0), gb, atol=1e-9 * gs * n, rtol=1e-9, msg="gradient in beta is not b minus the column sums of the plan")
    # weak duality against any coupling
    K = rng.exponential(size=(n, m)) + 1e-3
    P = K if idx % 2 else a[:, None] * b
    if idx % 2:
        for _ in range(200):
            P = P * (a / np.maximum(P.sum(1), 1e-300))[:, None]
            P = P * (b / np.maximum(P.sum(0), 1e-300))
    err = oracles.marg_err(P, a, b)
    ok_cap = kind != "sparse" or (np.count_nonzero(P, axis=0) <= cap).all()
    if ok_cap and err < 1e-9:
        mon.le("weak-duality", obj - float(np.sum(P * C)) - omega(kind, reg, P), 1e-7 * sc + err * (np.abs(al).sum() + np.abs(be).sum()), f"{kind}: dual value above a primal value")
    sobj, sg = quiet(smooth.semi_dual_obj_grad, al, a, b, C, R)
    Z = al[:, None] - C
    col = sum(b[j] * semi_conj(kind, reg, Z[:, j], b[j], cap) for j in range(m) if b[j] > 0)
    ref = al @ a - col
    sc2 = abs(ref) + np.abs(al).max() + s + reg * 10
    mon.le("semi-dual-value", abs(sobj - ref), 1e-9 * sc2, f"{kind}: semi-dual objective {sobj} instead of {ref}")
    if kind != "sparse":
        bm = b[b > 0].min()
        h = 1e-5 * (min(s, reg * bm) if kind == "l2" else min(reg, s))
        fd = oracles.fd_grad(lambda x: quiet(smooth.semi_dual_obj_grad, x, a, b, C, R)[0], al, h)
        mon.close("semi-dual-gradient", sg, fd, atol=2e-4 + 1e-12 * sc2 / h, rtol=0, msg=f"{kind}: gradient of the semi-dual")
        if ok_cap and err < 1e-9:
            mon.le("weak-duality", sobj - float(np.sum(P * C)) - omega(kind, reg, P), 1e-7 * sc2 + err * np.abs(al).sum(), f"{kind}: semi-dual value above a primal value")
    # maximising the dual over beta can only reach the semi-dual
    mon.le("partial-max", obj - sobj, 1e-8 * (sc + sc2), f"{kind}: the dual value {obj} exceeds the semi-dual value {sobj} at the same alpha")
    Q = quiet(smooth.get_plan_from_semi_dual, al, b, C, R)
    mon.close("plan-from-potentials", a - Q.sum(1), sg, atol=1e-9, rtol=1e-9, msg="semi-dual gradient is not a minus the row sums")
    mon.close("column-marginals", Q.sum(0), b, atol=1e-9, rtol=0, msg="columns of the semi-dual plan")
    if kind == "sparse":
        mon.le("cap", int(max(np.count_nonzero(G > 0, axis=0).max(), np.count_nonzero(Q > 0, axis=0).max())), cap, "more nonzeros than the cap")


def feasible(P, a, b):
    """Altschuler rounding: a coupling within 2|error| of P."""
    P = P * np.minimum(1, a / np.maximum(P.sum(1), 1e-300))[:, None]
    P = P * np.minimum(1, b / np.maximum(P.sum(0), 1e-300))
    ea, eb = np.maximum(a - P.sum(1), 0), np.maximum(b - P.sum(0), 0)
    return P + (ea[:, None] * eb / ea.sum() if ea.sum() > 1e-300 else 0)


@core.family(FAMILIES, 300, weight=3)
def smooth_solvers(mon, rng, idx):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    kind, C, reg, cap, a, b = draw(mon, rng, n, m)
    thr = float(gen.pick(rng, (1e-6, 1e-9, 1e-13)))
    method = gen.pick(rng, ("L-BFGS-B", "L-BFGS-B", "BFGS", "CG")) if n + m < 14 else "L-BFGS-B"
    it = int(gen.pick(rng, (1, 20, 5000, 5000, 5000)))
    mon.case(dict(kind=kind, reg=reg, cap=cap, C=C, a=a, b=b, stopThr=thr, method=method, numItermax=it))
    kw = dict(reg_type=KINDS[kind], max_nz=cap if kind == "sparse" else None, stopThr=thr, numItermax=it, method=method, log=True)
    inp = [x.copy() for x in (a, b, C)]
    G1, l1 = quiet(smooth.smooth_ot_dual, a, b, C, reg, **kw)
    G2, l2 = quiet(smooth.smooth_ot_semi_dual, a, b, C, reg, **kw)
    mon.true("input-intact", all(np.array_equal(x, y) for x, y in zip(inp, (a, b, C))), "inputs modified")
    mon.finite("finite", G1, "plan (dual)")
    mon.finite("finite", G2, "plan (semi-dual)")
    R = make(kind, reg, cap)
    mon.close("plan-from-potentials", G1, smooth.get_plan_from_dual(l1["alpha"], l1["beta"], C, R), atol=1e-12 + 1e-9 * np.abs(G1).max(), rtol=1e-9, msg="plan is not the one of the logged potentials")
    mon.close("plan-from-potentials", G2, quiet(smooth.get_plan_from_semi_dual, l2["alpha"], b, C, R), atol=1e-12, rtol=1e-9, msg="plan is not the one of the logged potential")
    mon.close("column-marginals", G2.sum(0), b, atol=1e-8, rtol=0, msg="semi-dual plan: columns")
    mon.true("nonnegative", (G1 >= 0).all() and (G2 >= 0).all(), "negative plan entries")
    if kind == "sparse":
        mon.le("cap", int(max(np.count_nonzero(G1, axis=0).max(), np.count_nonzero(G2, axis=0).max())), cap, "more nonzeros than the cap")
    d1 = float(l1["alpha"] @ a + l1["beta"] @ b - conj(kind, reg, l1["alpha"][:, None] + l1["beta"] - C, cap).sum())
    d2 = float(quiet(smooth.semi_dual_obj_grad, l2["alpha"], a, b, C, R)[0])
    sc = float(C.max()) + reg
    l1["res"].success and mon.le("reported-value", abs(-float(l1["res"].fun) - d1), 1e-9 * (abs(d1) + sc + np.abs(l1["alpha"]).max()), "res.fun is not minus the dual value")
    l2["res"].success and mon.le("reported-value", abs(-float(l2["res"].fun) - d2), 1e-9 * (abs(d2) + sc + np.abs(l2["alpha"]).max()), "res.fun is not minus the semi-dual value")
    # starting points are alpha = beta = 0: the ascent can only improve them
    z1 = smooth.dual_obj_grad(np.zeros(n), np.zeros(m), a, b, C, R)[0]
    z2 = quiet(smooth.semi_dual_obj_grad, np.zeros(n), a, b, C, R)[0]
    mon.le("ascent", z1 - d1, 1e-9 * sc, f"{kind}: final dual value {d1} below the starting one {z1}")
    mon.le("ascent", z2 - d2, 1e-9 * sc, f"{kind}: final semi-dual value {d2} below the starting one {z2}")
    # weak duality at any iterate; the gap closes at convergence
    for nm, G, d, l in (("dual", G1, d1, l1), ("semi-dual", G2, d2, l2)):
        e1 = oracles.marg_err(G, a, b)
        if kind == "sparse":
            continue
        F = feasible(G, a, b)
        p = float(np.sum(F * C)) + omega(kind, reg, F)
        mon.le("weak-duality", d - p, 1e-8 * sc, f"{kind} {nm}: dual value {d} above the primal value {p}")
        if thr <= 1e-13 and it == 5000 and (l["res"].success or method == "L-BFGS-B") and (kind != "entropic" or reg > 0.05 * sc):
            mon.event("converged")
            mon.le("gap", p - d, 2e-5 * sc, f"{kind} {nm}: primal {p}, dual {d} (marginal error {e1}, {l['res'].nit} iterations)")
            mon.le("marginals", e1, 1e-3, f"{kind} {nm}: marginal error at convergence")
    if kind != "sparse" and thr <= 1e-13 and it == 5000 and method == "L-BFGS-B" and (kind != "entropic" or reg > 0.05 * sc):
        mon.le("dual-equals-semi-dual", abs(d1 - d2), 2e-5 * sc, f"{kind}: dual {d1}, semi-dual {d2}")
        mon.le("dual-equals-semi-dual", float(np.abs(G1 - G2).max()), 2e-3, f"{kind}: the two plans differ")
        if kind == "entropic":
            P = entropic_plan(a, b, C, reg)
            mon.close("entropic-plan", G2, P, atol=2e-3 / 2, rtol=0, msg="kl plan is not the Sinkhorn plan")
            mon.close("entropic-plan", G1, P, atol=2e-3 / 2, rtol=0, msg="kl plan is not the Sinkhorn plan (dual)")


@core.family(FAMILIES, 60)
def smooth_interface(mon, rng, idx):
    n, m = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    kind, C, reg, cap, a, b = draw(mon, rng, n, m, False)
    mon.case(dict(kind=kind, reg=reg, cap=cap, C=C, a=a, b=b))
    kw = dict(reg_type=KINDS[kind], max_nz=cap if kind == "sparse" else None)
    for f in (smooth.smooth_ot_dual, smooth.smooth_ot_semi_dual):
        mon.raises("method-used", lambda: f(a, b, C, reg, method="no-such-optimiser", **kw), ValueError, "an unknown scipy method is silently replaced")
        mon.raises("unknown-regularisation", lambda: f(a, b, C, reg, reg_type="l3"), NotImplementedError, "unknown reg_type")
        mon.raises("cap-required", lambda: f(a, b, C, reg, reg_type="sparsity_constrained"), ValueError, "no max_nz")
        r = quiet(f, a, b, C, reg, log=True, **kw)
        mon.close("log-form", quiet(f, a, b, C, reg, **kw), r[0], atol=1e-12, rtol=1e-9, msg="plan depends on log")
        for alias in {"l2": ("squaredl2", "L2"), "entropic": ("entropic", "negentropy", "KL"), "sparse": ("sparsity-constrained",)}[kind]:
            mon.close("aliases", quiet(f, a, b, C, reg, **dict(kw, reg_type=alias)), r[0], atol=1e-12, rtol=1e-9, msg=f"alias {alias}")


def stochastic_case(mon, rng, n, m, zero=True):
    a, b = gen.weights(rng, n, positive=not zero), gen.weights(rng, m, positive=not zero)
    C = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "dupes")))
    C = C / max(C.max(), 1e-9) * float(10 ** rng.uniform(-1, 1))
    if (a == 0).any() or (b == 0).any():
        mon.event("zero-weights")
    if np.ptp(a) > 1e-6:
        mon.event("non-uniform")
    return a, b, C


def lse_rows(b, M, reg, beta):
    return logsumexp((beta[None] - M) / reg, b=b[None], axis=1)


@core.family(FAMILIES, 500)
def stochastic_pieces(mon, rng, idx):
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    a, b, C = stochastic_case(mon, rng, n, m)
    s = float(C.max()) + 1e-12
    reg = s * float(10 ** rng.uniform(-3.5, 1))
    if reg < 2e-3 * s:
        mon.event("small-reg")
    beta = rng.normal(size=m) * s * rng.uniform(0, 2)
    mon.case(dict(a=a, b=b, C=C, reg=reg, beta=beta))
    soft = np.exp((beta[None] - C) / reg - lse_rows(b, C, reg, beta)[:, None] + np.where(b > 0, 0, -np.inf)[None]) * b
    for i in range(n):
        g = quiet(sto.coordinate_grad_semi_dual, b, C, reg, beta, i)
        mon.close("coordinate-gradient", g, b - soft[i], atol=1e-9, rtol=0, msg=f"reg={reg}: gradient of the semi-dual at row {i}")
        mon.le("coordinate-gradient", abs(float(np.sum(g))), 1e-9, "the coordinate gradient must sum to zero")
    al = quiet(sto.c_transform_entropic, b, C, reg, beta)
    mon.close("c-transform", al, -reg * lse_rows(b, C, reg, beta), atol=1e-9 * (s + np.abs(beta).max() + reg * 10), rtol=0, msg=f"reg={reg}: entropic c-transform")
    # mini-batch gradient: the average over all batches is proportional to the full gradient
    n2, m2 = min(n, 4), min(m, 4)
    A, B, M = a[:n2], b[:m2], C[:n2, :m2]
    reg2 = max(reg, 0.1 * s)
    u, v = rng.normal(size=n2) * s * 0.3, rng.normal(size=m2) * s * 0.3
    k = int(rng.integers(1, min(n2, m2) + 1))
    P = np.exp((u[:, None] + v - M) / reg2) * A[:, None] * B
    S1, S2, c = np.zeros(n2), np.zeros(m2), 0
    for ba in itertools.combinations(range(n2), k):
        for bb in itertools.combinations(range(m2), k):
            ba_, bb_ = rng.permutation(ba), rng.permutation(bb)
            g1, g2 = sto.batch_grad_dual(A, B, M, reg2, u, v, k, ba_, bb_)
            mon.true("batch-support", not np.delete(g1, ba).any() and not np.delete(g2, bb).any(), "gradient outside of the batch")
            S1 += g1
            S2 += g2
            c += 1
    f = k / n2 * k / m2 * c
    mon.close("batch-gradient-mean", S1 / f, A - P.sum(1), atol=1e-9 * (1 + P.sum()), rtol=0, msg="mean mini-batch gradient in alpha")
    mon.close("batch-gradient-mean", S2 / f, B - P.sum(0), atol=1e-9 * (1 + P.sum()), rtol=0, msg="mean mini-batch gradient in beta")


@core.family(FAMILIES, 300)
def losses(mon, rng, idx):
    n, m, d = int(rng.integers(1, 7)), int(rng.integers(1, 7)), int(rng.integers(1, 4))
    xs, xt = gen.points(rng, n, d), gen.points(rng, m, d)
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock", "callable"))
    C = ot.dist(xs, xt, metric="sqeuclidean" if metric == "callable" else metric)
    cb = (lambda x, y: ot.dist(x, y)) if metric == "callable" else metric
    s = max(float(C.max()), 1e-3)
    reg = s * float(10 ** rng.uniform(-1, 1))
    uniform = rng.random() < 0.3
    a, b = (np.ones(n) / n, np.ones(m) / m) if uniform else (gen.weights(rng, n), gen.weights(rng, m))
    wk = {} if uniform else dict(ws=a, wt=b)
    u, v = rng.normal(size=n) * s * 0.5, rng.normal(size=m) * s * 0.5
    mon.case(dict(xs=xs, xt=xt, metric=metric, reg=reg, a=a, b=b, u=u, v=v))
    D = u[:, None] + v - C
    for nm, L, Pl, F, H in (("entropic", sto.loss_dual_entropic, sto.plan_dual_entropic, -reg * np.exp(D / reg), np.exp(D / reg)),
                            ("quadratic", sto.loss_dual_quadratic, sto.plan_dual_quadratic, -np.maximum(D, 0) ** 2 / (4 * reg), np.maximum(D, 0) / (2 * reg))):
        val = float(L(u, v, xs, xt, reg=reg, metric=cb, **wk))
        ref = u @ a + v @ b + float(a @ F @ b)
        sc = abs(ref) + np.abs(u).max() + np.abs(v).max() + float(a @ np.abs(F) @ b)
        mon.le("loss-value", abs(val - ref), 1e-9 * sc, f"{nm}: loss {val} instead of {ref}")
        P = Pl(u, v, xs, xt, reg=reg, metric=cb, **wk)
        mon.close("gibbs-form", P, a[:, None] * H * b, atol=1e-9 * (1 + np.abs(H).max()), rtol=1e-9, msg=f"{nm}: plan")
        h = 1e-5 * min(s, reg)
        tol = 1e-3 * (1 + P.sum()) * 1e-1 + 1e-12 * sc / h + h / reg
        mon.close("loss-gradient", oracles.fd_grad(lambda x: float(L(x, v, xs, xt, reg=reg, metric=cb, **wk)), u, h), a - P.sum(1), atol=tol, rtol=1e-3, msg=f"{nm}: gradient in u is not ws minus the row sums of the plan")
        mon.close("loss-gradient", oracles.fd_grad(lambda x: float(L(u, x, xs, xt, reg=reg, metric=cb, **wk)), v, h), b - P.sum(0), atol=tol, rtol=1e-3, msg=f"{nm}: gradient in v is not wt minus the column sums of the plan")


@core.family(FAMILIES, 60, weight=6)
def semi_dual_solvers(mon, rng, idx):
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    a, b, C = stochastic_case(mon, rng, n, m)
    s = float(C.max()) + 1e-12
    reg = s * float(10 ** rng.uniform(-0.3, 0.7))
    small = rng.random() < 0.2
    if small:
        reg = s * float(10 ** rng.uniform(-3.5, -2))
        mon.event("small-reg")
    method = ("sag", "asgd", "SAG", "ASGD")[idx % 4]
    mon.event(method.lower())
    it = 6000 if method.lower() == "sag" else 12000
    if small:
        it = 300
    mon.case(dict(a=a, b=b, C=C, reg=reg, method=method, it=it))
    np.random.seed(idx)
    P, log = quiet(sto.solve_semi_dual_entropic, a, b, C, reg, method, numItermax=it, log=True)
    mon.finite("finite", P, f"{method} plan (reg={reg})")
    mon.close("row-marginals", P.sum(1), a, atol=1e-9, rtol=0, msg=f"{method}: row sums")
    sc = s + np.abs(log["beta"]).max() + 10 * reg
    mon.close("c-transform", log["alpha"], -reg * lse_rows(b, C, reg, log["beta"]), atol=1e-9 * sc, rtol=0, msg="alpha is not the c-transform of beta")
    E = np.exp((log["alpha"][:, None] + log["beta"] - C) / reg + np.where(b > 0, 0, -np.inf)) * a[:, None] * b
    mon.close("gibbs-form", P, E, atol=1e-9, rtol=1e-9 * (1 + sc / reg), msg="plan is not of the Gibbs form")
    # the ascent direction is a stochastic gradient: the semi-dual at the returned beta against its maximum
    if small:
        return
    Q = entropic_plan(a, b, C, reg)
    if Q is None:
        raise core.Skip("no reference plan")
    err = float(np.abs(P - Q).sum())
    mon.le("convergence", err, 1e-3 if method.lower() == "sag" and it > 5000 else 0.06, f"{method}: distance to the entropic plan (column error {np.abs(P.sum(0) - b).max()})")
    # reproducibility and log-free form
    np.random.seed(idx)
    P2 = quiet(sto.solve_semi_dual_entropic, a, b, C, reg, method, numItermax=50)
    np.random.seed(idx)
    P3 = quiet(sto.solve_semi_dual_entropic, a, b, C, reg, method, numItermax=50, log=True)[0]
    mon.close("log-form", P2, P3, atol=1e-12, rtol=1e-9, msg="the plan depends on log")
    mon.raises("unknown-method", lambda: sto.solve_semi_dual_entropic(a, b, C, reg, "newton", numItermax=5), Exception, "an unknown method must not return silently")


@core.family(FAMILIES, 40, weight=6)
def dual_sgd(mon, rng, idx):
    n, m = int(rng.integers(1, 7)), int(rng.integers(1, 7))
    a, b, C = stochastic_case(mon, rng, n, m, False)
    a, b = 0.5 * a + 0.5 / n, 0.5 * b + 0.5 / m
    s = float(C.max()) + 1e-12
    reg = s * float(10 ** rng.uniform(-0.3, 0.5))
    k = int(rng.integers(1, min(n, m) + 1))
    it = 12000
    lr = 0.5 * reg * max(n, m)
    mon.event("sgd")
    mon.case(dict(a=a, b=b, C=C, reg=reg, batch=k, lr=lr))
    np.random.seed(idx)
    P, log = quiet(sto.solve_dual_entropic, a, b, C, reg, k, numItermax=it, lr=lr, log=True)
    mon.finite("finite", P, "plan")
    E = np.exp((log["alpha"][:, None] + log["beta"] - C) / reg) * a[:, None] * b
    mon.close("gibbs-form", P, E, atol=1e-10, rtol=1e-9, msg="plan is not of the Gibbs form")
    Q = entropic_plan(a, b, C, reg)
    if Q is None:
        raise core.Skip("no reference plan")
    mon.le("convergence", float(np.abs(P - Q).sum()), 0.01 if k == n == m else 0.12, f"SGD (batch {k}): distance to the entropic plan")
    np.random.seed(idx)
    P2 = quiet(sto.solve_dual_entropic, a, b, C, reg, k, numItermax=30, lr=lr)
    np.random.seed(idx)
    mon.close("log-form", P2, quiet(sto.solve_dual_entropic, a, b, C, reg, k, numItermax=30, lr=lr, log=True)[0], atol=1e-12, rtol=1e-9, msg="the plan depends on log")
    z1 = sto.sgd_entropic_regularization(a, b, C, reg, k, 30, lr, random_state=5)
    z2 = sto.sgd_entropic_regularization(a, b, C, reg, k, 30, lr, random_state=5)
    mon.true("reproducible", all(np.array_equal(x, y) for x, y in zip(z1, z2)), "same random_state, different potentials")
