"""The unified API (solve, solve_gromov, solve_sample, OTResult).  For every regulariser, penalty,
reference measure, weights, initialisation and method, the fields of the result are recomputed from
the returned plan with the documented functional (value, linear and quadratic parts, marginals,
dense/sparse/lazy plans), and the plan must solve that documented problem: exact problems by dual
certificates, entropic ones against the check's own log-domain solution with the requested reference
measure, quadratic and user-given regularisers by the Frank-Wolfe gap of an independent linear
program, unbalanced ones by a weak-duality bound; Gromov problems by the four-index objective,
feasibility and fixed-point equations at the requested regularisation.  Sample-based solving must
agree with matrix-based solving on the cost; unknown options must be refused."""

import warnings

import numpy as np
import scipy.sparse as sp
from scipy.special import logsumexp

import ot
from vt import core, gen, gw, oracles
from vt.checks.c12 import Problem as Unbalanced
from vt.checks.c12 import kl_pair, measures, penalties
from vt.checks.c14 import lp_mass
from vt.checks.c15 import Problem as Gromov
from vt.checks.c15 import coupling, quiet
from vt.checks.c16 import entropic_plan, entropy, spread

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("value", "value-linear", "marginals", "exact-optimal", "dual-feasible", "strong-duality", "entropic-plan",
            "l2-optimal", "tuple-gap", "unb-value", "unb-optimal", "gw-value", "gw-split", "gw-feasible", "gw-fixed-point",
            "gw-direct", "sample-plan", "sample-value", "lazy-plan", "lazy-marginals", "refused", "result-fields", "potentials-rebuild")
REQUIRED_EVENTS = ("exact", "kl", "entropy", "l2", "tuple", "reference", "mm", "tv", "sinkhorn-unbalanced", "lbfgsb", "gw-entropic",
                   "gw-semirelaxed", "gw-partial", "gw-linear-only", "gw-quadratic-only", "lazy-exact", "lazy-sinkhorn", "weighted-gaussian",
                   "weighted-factored", "lowrank", "nystroem", "1d")


def case_mix(rng, s):
    return gen.pick(rng, (s, s, s.lower(), s.upper()))


def marginals(mon, res, P, tol=1e-12):
    mon.close("marginals", np.asarray(res.marginal_a), P.sum(1), tol, 1e-10)
    mon.close("marginals", np.asarray(res.marginal_b), P.sum(0), tol, 1e-10)
    ms = res.marginals
    if mon.true("marginals", ms is not None and len(ms) == 2, "marginals of a result with a plan"):
        mon.close("marginals", np.asarray(ms[0]), P.sum(1), tol, 1e-10)
        mon.close("marginals", np.asarray(ms[1]), P.sum(0), tol, 1e-10)


def weights(rng, n, m, positive):
    """(a, b, handed a, handed b)"""
    a = gen.weights(rng, n, positive=positive)
    b = gen.weights(rng, m, positive=positive)
    ga, gb = rng.random() < 0.8, rng.random() < 0.8
    return (a if ga else np.ones(n) / n), (b if gb else np.ones(m) / m), (a if ga else None), (b if gb else None)


def judge_exact(mon, res, a, b, M, s):
    mon.event("exact")
    P = np.asarray(res.plan)
    ref = oracles.lp_transport(a, b, M)[0]
    if ref is None:
        raise core.Skip()
    mon.le("exact-optimal", max(oracles.marg_err(P, a, b), float(-P.min())), 1e-9, "feasible")
    mon.close("exact-optimal", float(res.value), ref, 1e-8 * s, 1e-9)
    mon.close("value-linear", float(res.value_linear), float(np.sum(P * M)), 1e-9 * s, 1e-10)
    mon.close("value", float(res.value), float(np.sum(P * M)), 1e-9 * s, 1e-10)
    u, v = np.asarray(res.potential_a), np.asarray(res.potential_b)
    pa, pb = a > 0, b > 0
    mon.le("dual-feasible", float((u[:, None] + v[None] - M)[np.ix_(pa, pb)].max()), 1e-8 * s)
    mon.close("strong-duality", float(a @ u + b @ v), ref, 1e-7 * s, 1e-8)
    mon.true("result-fields", res.status == "Converged", "status %r" % (res.status,))


@core.family(FAMILIES, 420, weight=2)
def balanced(mon, rng, idx):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    M = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "random", "ties", "constant", "signed")))
    sc = float(np.abs(M).max()) + 1e-3
    kind = gen.pick(rng, ("exact", "kl", "kl", "entropy", "l2", "l2", "tuple"))
    a, b, a_, b_ = weights(rng, n, m, kind in ("kl", "entropy", "l2"))
    reg = sc * float(10 ** rng.uniform(-1, 0.6))
    c = None
    if kind in ("kl", "l2", "entropy") and rng.random() < 0.5:
        c = rng.random((n, m)) + 0.1
        c = c / c.sum() * (float(rng.uniform(0.5, 2)) if rng.random() < 0.5 else 1)
        mon.event("reference")
    kw, text = dict(c=c), kind
    if rng.random() < 0.3:
        kw["n_threads"] = 2
    if kind == "exact":
        kw["reg"] = gen.pick(rng, (None, 0, 0.0))
        if rng.random() < 0.4:
            kw["potentials_init"] = (rng.normal(size=n) * sc, rng.normal(size=m) * sc)
        if rng.random() < 0.3:
            kw["reg_type"] = "L2"
    elif kind == "tuple":
        T = rng.random((n, m)) / (n * m)
        f, df = (lambda G: 0.5 * np.sum((G - T) ** 2)), (lambda G: G - T)
        kw.update(reg=reg, reg_type=(f, df), max_iter=400, tol=0.0)
        if rng.random() < 0.5:
            kw["plan_init"] = coupling(rng, a, b)
    else:
        kw.update(reg=reg, max_iter=20000, tol=1e-11)
        if kind != "kl" or rng.random() < 0.5:
            kw["reg_type"] = case_mix(rng, {"kl": "KL", "entropy": "entropy", "l2": "L2"}[kind])
        if kind != "l2" and rng.random() < 0.3:
            kw["grad"] = gen.pick(rng, ("autodiff", "last_step"))
    mon.case(a, b, M, c, n=n, m=m, kind=kind, reg=reg, weights=(a_ is None, b_ is None), kw=str(sorted(k for k in kw)),
             nontrivial=n > 1 and m > 1)
    before = [np.array(x) for x in (a, b, M)] + [None if c is None else c.copy()]
    with np.errstate(all="ignore"):
        res = quiet(ot.solve, M, a_, b_, **kw)
    mon.true("inputs-intact", all(x is None or np.array_equal(x, y) for x, y in zip(before, (a, b, M, c))))
    P = np.asarray(res.plan)
    if not mon.true("result-fields", P.shape == (n, m) and bool(np.isfinite(P).all()), kind):
        return
    marginals(mon, res, P)
    s = sc + (reg if kind != "exact" else 0.0)
    if kind == "exact":
        return judge_exact(mon, res, a, b, M, s)
    mon.event(kind)
    lin = float(np.sum(P * M))
    mon.close("value-linear", float(res.value_linear), lin, 1e-9 * s, 1e-10)
    mon.true("result-fields", float(P.min()) >= -1e-12)
    err = oracles.marg_err(P, a, b)
    u, v = (np.asarray(x) for x in res.potentials)
    if kind in ("kl", "entropy"):
        R = np.outer(a, b) if c is None else c
        with np.errstate(all="ignore"):
            want = lin + reg * (entropy(P) if kind == "entropy" else float(np.sum(np.where(P > 0, P * np.log(np.maximum(P, 1e-300) / R), 0.0))))
        # the value may or may not count the (constant) masses of the generalised divergence
        off = 0.0 if kind == "entropy" else reg * (float(R.sum()) - float(P.sum()))
        got = float(res.value)
        mon.le("value", min(abs(got - want), abs(got - want - off)), 1e-8 * s * (1 + n * m * 1e-3), kind)
        K = np.exp(np.minimum(u[:, None] + v[None] - M / reg, 700)) * (c if kind == "kl" and c is not None else 1.0)
        if err < 1e-8:
            D = M if kind == "entropy" or c is None else M - reg * np.log(c)
            S = entropic_plan(a, b, D, reg)
            if S is not None:
                mon.close("entropic-plan", P, S, 1e-7, 1e-5)
            mon.close("potentials-rebuild", K, P, 1e-8, 1e-6)
        else:
            mon.event("not-converged")
    elif kind == "l2":
        R = np.zeros((n, m)) if c is None else c
        mon.close("value", float(res.value), lin + 0.5 * reg * float(np.sum((P - R) ** 2)), 1e-9 * s, 1e-9, "l2")
        if err > 1e-4:
            mon.event("not-converged")
            return
        D = M + reg * (P - R)
        lp = oracles.lp_transport(a, b, D)[0]
        if lp is not None:
            # the dual solver leaves a marginal residue, hence the extra term
            mon.le("l2-optimal", float(np.sum(D * P)) - lp, 1e-4 * s + 20 * err * (s + float(np.abs(D).max())), "gap of the documented quadratic problem")
        mon.close("potentials-rebuild", np.maximum(0, u[:, None] + v[None] - M + reg * R) / reg, P, 1e-9, 1e-7, "l2")
    else:
        mon.close("value", float(res.value), lin + reg * f(P), 1e-9 * s, 1e-9, "tuple")
        mon.le("tuple-gap", err, 1e-9)
        D = M + reg * df(P)
        lp = oracles.lp_transport(a, b, D)[0]
        if lp is not None:
            mon.le("tuple-gap", float(np.sum(D * P)) - lp, 0.1 * (sc + reg))


@core.family(FAMILIES, 420, weight=3)
def unbalanced(mon, rng, idx):
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    M = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "random", "ties", "constant", "dupes")))
    sc = float(M.max()) + 1e-3
    a, b = measures(rng, n, m)
    ga, gb = rng.random() < 0.85, rng.random() < 0.85
    a_, b_ = (a if ga else None), (b if gb else None)
    a, b = (a if ga else np.ones(n) / n), (b if gb else np.ones(m) / m)
    regular = rng.random() < 0.6
    D = gen.pick(rng, ("kl", "l2", "tv") if not regular else ("kl", "kl", "l2", "tv"))
    R = gen.pick(rng, ("kl", "kl", "entropy", "l2", "tuple")) if regular else None
    reg = sc * float(10 ** rng.uniform(-1, 0.5)) if regular else 0.0
    scaling = R == "kl" and D == "kl"
    rm, (r1, r2) = penalties(mon, rng, sc, inf=scaling)
    if D == "l2":
        z = 5 / (a.sum() + b.sum())
        r1, r2 = r1 * z, r2 * z
        rm = (r1, r2)
    if r1 == r2 == float("inf"):
        b_ = b = b * a.sum() / b.sum()
    c = rng.random((n, m)) + 0.1 if regular and rng.random() < 0.4 else None
    if c is not None:
        mon.event("reference")
    pb = Unbalanced(a, b, M, reg, {"tuple": "kl"}.get(R, R), c, D, r1, r2)
    kw = dict(unbalanced=rm, unbalanced_type=case_mix(rng, {"kl": "KL", "l2": "L2", "tv": "TV"}[D]), c=c)
    kw["max_iter"] = 6000 if scaling else 3000
    kw["tol"] = 1e-13 if scaling else 1e-15
    if regular:
        kw.update(reg=reg, reg_type=kl_pair(pb.c) if R == "tuple" else case_mix(rng, {"kl": "KL", "entropy": "entropy", "l2": "L2"}[R]))
    else:
        kw["reg"] = gen.pick(rng, (None, 0))
    G0 = rng.random((n, m)) + 0.1 if rng.random() < 0.3 and not scaling else None
    if G0 is not None:
        kw["plan_init"] = G0
    if scaling and rng.random() < 0.3:
        kw["potentials_init"] = (0.5 * rng.normal(size=n), 0.5 * rng.normal(size=m))
    mon.case(a, b, M, c, G0, n=n, m=m, reg=reg, r1=r1, r2=r2, D=D, R=str(R), weights=(ga, gb), nontrivial=n > 1 and m > 1)
    res = quiet(ot.solve, M, a_, b_, **kw)
    P = np.asarray(res.plan)
    if not mon.true("result-fields", P.shape == (n, m) and bool(np.isfinite(P).all()) and bool((P >= -1e-12 * P.max()).all()), "%s/%s" % (R, D)):
        return
    marginals(mon, res, P, 1e-12 * (1 + a.sum()))
    P = np.maximum(P, 0)
    up = pb.primal(P)
    s = abs(up) + (sc + reg) * (P.sum() + a.sum()) + reg * pb.c.sum() * (reg > 0)
    mon.close("value-linear", float(res.value_linear), float(np.sum(P * M)), 1e-9 * s, 1e-9)
    off = reg * n * m if R == "entropy" else 0.0  # the constant of the entropy may be counted
    mon.le("unb-value", min(abs(float(res.value) - up), abs(float(res.value) - up - off)), 1e-8 * (s + off), "%s/%s" % (R, D))
    if scaling:
        mon.event("sinkhorn-unbalanced")
        u, v = (np.asarray(x) for x in res.potentials)
        mon.close("potentials-rebuild", pb.c * np.exp(u[:, None] + v[None] - M / reg), P, 1e-9 * P.max(), 1e-7, "unbalanced")
        for r, got, w in ((r1, P.sum(1), a), (r2, P.sum(0), b)):
            if r == float("inf") and np.isfinite(min(r1, r2)):
                mon.event("half-relaxed")
    if D == "tv":
        mon.event("tv")
        start = pb.primal(np.outer(a, b) if G0 is None else G0)
        # L-BFGS may end slightly above its start on a function with kinks
        mon.le("unb-optimal", up - start, 5e-2 * (s + abs(start)), "not worse than the start")
        return
    mon.event("mm" if not regular else "kl-kl" if scaling else "lbfgsb")
    tol = 2e-2 if not regular else 1e-4 if scaling else 5e-2 if R == "l2" or D == "l2" else 2e-2
    mon.le("unb-optimal", up - pb.lower(P), tol * s, "%s/%s" % (R, D))


@core.family(FAMILIES, 60)
def refusals(mon, rng, idx):
    n, m = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    M = rng.random((n, m))
    x, y = rng.normal(size=(n, 2)), rng.normal(size=(m, 2))
    C1, C2 = ot.dist(x, x), ot.dist(y, y)
    bad = gen.pick(rng, ("klx", "cauchy", "l3", "entropic"))
    k = idx % 12
    mon.case(M, x, y, k=k, bad=bad)
    E = NotImplementedError
    if k == 0:
        mon.raises("refused", lambda: ot.solve(M, reg=1.0, reg_type=bad), E, "solve reg_type")
    elif k == 1:
        mon.raises("refused", lambda: ot.solve(M, unbalanced=1.0, unbalanced_type=bad), E, "solve unbalanced_type")
    elif k == 2:
        mon.raises("refused", lambda: ot.solve(M, reg=1.0, unbalanced=1.0, unbalanced_type=bad), E, "solve both")
    elif k == 3:
        mon.raises("refused", lambda: ot.solve(M, reg=1.0, reg_type=bad, unbalanced=1.0), E, "solve both")
    elif k == 4:
        mon.raises("refused", lambda: ot.solve_gromov(C1, C2, loss=bad), E, "gromov loss")
    elif k == 5:
        t = gen.pick(rng, ("KL", "L2", bad))
        mon.raises("refused", lambda: ot.solve_gromov(C1, C2, unbalanced=0.5, unbalanced_type=t, reg=gen.pick(rng, (None, 1.0))), E, "gromov unbalanced")
    elif k == 6:
        t = gen.pick(rng, ("KL", "L2", bad))
        mon.raises("refused", lambda: ot.solve_gromov(C1, C2, gen.pick(rng, (None, M)), reg=1.0, reg_type=t), E, "gromov reg_type")
    elif k == 7:
        t = gen.pick(rng, ("KL", "L2", bad))
        mon.raises("refused", lambda: ot.solve_gromov(C1, C2, gen.pick(rng, (None, M)), reg=1.0, reg_type=t, unbalanced_type="semirelaxed"), E, "gromov semirelaxed")
    elif k == 8:
        mon.raises("refused", lambda: ot.solve_sample(x, y, reg=1.0, reg_type=gen.pick(rng, ("L2", bad)), lazy=True), E, "lazy reg_type")
    elif k == 9:
        mon.raises("refused", lambda: ot.solve_sample(x, y, reg=gen.pick(rng, (None, 1.0)), unbalanced=1.0, lazy=True), E, "lazy unbalanced")
    elif k == 10:
        meth = gen.pick(rng, ("gaussian", "factored", "lowrank", "nystroem"))
        mon.raises("refused", lambda: ot.solve_sample(x, y, metric="euclidean", method=meth, rank=2), E, meth)
    else:
        big = float(1 + rng.uniform(0.01, 1))
        mon.raises("refused", lambda: ot.solve_gromov(C1, C2, gen.pick(rng, (None, M)), unbalanced=big, unbalanced_type="partial",
                                                                   reg=gen.pick(rng, (None, 1.0))), ValueError, "mass above the smaller measure")


@core.family(FAMILIES, 420, weight=3)
def gromov(mon, rng, idx):
    P = Gromov(mon, rng, 6)
    if rng.random() < 0.3:
        P.p = np.ones(P.n) / P.n
    kind = gen.pick(rng, ("exact", "exact", "entropic", "semirelaxed", "entropic-semirelaxed", "partial", "entropic-partial"))
    if kind.startswith("entropic"):
        P.p, P.q = gen.weights(rng, P.n, positive=True), gen.weights(rng, P.m, positive=True)
    mode = gen.pick(rng, ("none", "fused", "fused", "one", "zero"))
    M = None if mode == "none" else P.M
    default_alpha = mode == "fused" and rng.random() < 0.2
    P.alpha = {"none": 1.0, "one": 1.0, "zero": 0.0}.get(mode, 0.5 if default_alpha else P.alpha)
    if mode == "zero" and "partial" in kind:
        mode, P.alpha = "fused", 0.5
    fused = mode in ("fused", "zero")
    a_, b_ = P.p, P.q
    if np.allclose(P.p, 1 / P.n) and rng.random() < 0.7:
        a_ = None
    kw = dict(loss=case_mix(rng, {"square_loss": "L2", "kl_loss": "KL"}[P.loss]), symmetric=P.symmetric)
    if mode != "none" and not default_alpha:
        kw["alpha"] = P.alpha
    eps = 0.0
    if kind.startswith("entropic"):
        eps = spread(P, fused or mode == "fused") * float(10 ** rng.uniform(-1, 0.6))
        kw["reg"] = eps
        if rng.random() < 0.5:
            kw["reg_type"] = "entropy"
    mm = None
    if "semirelaxed" in kind:
        kw["unbalanced_type"] = "semirelaxed"
    if "partial" in kind:
        mm = float(rng.uniform(0.2, 0.95))
        kw.update(unbalanced_type="partial", unbalanced=mm)
    budget = rng.random()
    if mode == "zero" and kind == "exact":
        budget = 0.9  # the network simplex: a cut is not a plan
    if budget < 0.3:
        kw["max_iter"] = int(rng.integers(1, 25))
    elif budget < 0.6:
        kw.update(max_iter=500, tol=1e-12)
    G0 = np.outer(P.p, P.q)
    own = rng.random() < 0.4 and mode != "zero"
    if own:
        G0 = 0.9 * coupling(rng, P.p, P.q) + 0.1 * np.outer(P.p, P.q)
        if mm:
            G0 = G0 * mm * (1 - 1e-9)
        kw["plan_init"] = np.array(G0)
    elif mm:
        G0 = G0 * mm
    elif "semi" in kind:
        G0 = np.outer(P.p, np.ones(P.m) / P.m)
    mon.case(P.C1, P.C2, P.p, P.q, P.M, G0, kind=kind, mode=mode, own=own, eps=eps, kw=str({k: v for k, v in kw.items() if k != "plan_init"}), **P.meta())
    before = [np.array(x) for x in (P.C1, P.C2, P.p, P.q, P.M)]
    res = quiet(ot.solve_gromov, P.C1, P.C2, M, a_, b_, **kw)
    mon.true("inputs-intact", all(np.array_equal(x, y) for x, y in zip(before, (P.C1, P.C2, P.p, P.q, P.M))))
    T = np.asarray(res.plan)
    if not mon.true("result-fields", T.shape == (P.n, P.m) and bool(np.isfinite(T).all()), kind):
        return
    marginals(mon, res, T)
    mon.event({"exact": "gw-exact"}.get(kind, "gw-" + kind.split("-")[-1]))
    if mode == "zero":
        mon.event("gw-linear-only")
    if mode in ("none", "one"):
        mon.event("gw-quadratic-only")
    s = P.size(True) + eps
    err = float(np.abs(T.sum(1) - P.p).max()) if "semi" in kind else oracles.marg_err(T, P.p, P.q) if not mm else 0.0
    slop = 8 * P.n * err
    lin = (1 - P.alpha) * float(np.sum(P.M * T)) if M is not None else 0.0
    quad = P.alpha * gw.value(P.L, T) if M is not None else gw.value(P.L, T)
    want = lin + quad + eps * entropy(T)
    mon.close("gw-value", float(res.value), want, (1e-7 + slop) * s, 1e-7, kind + "/" + mode)
    vl = 0.0 if res.value_linear is None else float(res.value_linear)
    mon.close("gw-split", vl, lin, 1e-8 * s, 1e-8, "linear " + kind + "/" + mode)
    mon.true("gw-split", not (mode == "fused" and (res.value_linear is None or res.value_quad is None)), "both parts are reported")
    vq = 0.0 if res.value_quad is None else float(res.value_quad)
    if mode != "zero" or res.value_quad is not None:
        mon.close("gw-split", vq, quad, (1e-7 + slop) * s, 1e-7, "quadratic " + kind + "/" + mode)
    mon.true("result-fields", bool(T.min() >= -1e-12))
    if "semi" in kind:
        mon.le("gw-feasible", float(np.abs(T.sum(1) - P.p).max()), 1e-9, kind)
    elif mm:
        mon.le("gw-feasible", abs(float(T.sum()) - mm), 1e-6, kind)
        if not eps:
            mon.le("gw-feasible", max(float((T.sum(1) - P.p).max()), float((T.sum(0) - P.q).max())), 1e-7, kind)
    elif not eps:
        mon.le("gw-feasible", oracles.marg_err(T, P.p, P.q), 1e-9, kind)
    if not eps:
        start = P.obj(G0, fused)
        mon.le("gw-fixed-point", P.obj(T, fused) - start, 1e-7 * s, "not above the start")
        if budget >= 0.6 or kw.get("max_iter") == 500:
            lp = (lambda X: float(np.sum(P.p * X.min(1)))) if "semi" in kind else (lambda X: lp_mass(P.p, P.q, X, mm)) if mm else (lambda X: oracles.lp_transport(P.p, P.q, X)[0])
            D = P.M if mode == "zero" else P.grad(T, fused)
            ref = lp(D)
            if ref is not None:
                mon.le("gw-fixed-point", float(np.sum(D * T)) - ref, 0.1 * s, "Frank-Wolfe gap")
                if mode == "zero" and kind == "exact":
                    mon.close("gw-fixed-point", float(res.value), ref, 1e-8 * s, 1e-9)
    elif "partial" not in kind:
        D = P.M if mode == "zero" else P.grad(T, fused)
        last = res.log["err"][-1] if res.log is not None and res.log.get("err") else 1.0
        if err < 1e-8 and ((mode == "zero" and "semi" not in kind) or last < 1e-9):
            mon.event("gw-converged")
            if "semi" in kind:
                with np.errstate(divide="ignore"):
                    Z = np.log(T) - P.grad(T, fused) / eps
                    mon.close("gw-fixed-point", T, P.p[:, None] * np.exp(Z - logsumexp(Z, axis=1)[:, None]), 1e-6, 0, kind)
            else:
                S = entropic_plan(P.p, P.q, D, eps)
                if S is not None:
                    mon.close("gw-fixed-point", T, S, 1e-6, 1e-5, kind)
    # the dedicated solvers, given the same documented arguments, reach the same plan
    if mode != "zero" and "max_iter" in kw:
        f = "fused_" if fused else ""
        k2 = dict(loss_fun=P.loss, symmetric=P.symmetric, log=True)
        if own:
            k2["G0"] = np.array(G0)
        if fused:
            k2["alpha"] = P.alpha
        lead = (P.M, P.C1, P.C2) if fused else (P.C1, P.C2)
        if kind == "exact":
            S, lg = quiet(getattr(ot.gromov, f + "gromov_wasserstein"), *lead, P.p, P.q, max_iter=kw["max_iter"], tol_rel=kw.get("tol", 1e-9), tol_abs=kw.get("tol", 1e-9), **k2)
        elif kind == "semirelaxed":
            S, lg = quiet(getattr(ot.gromov, "semirelaxed_" + f + "gromov_wasserstein"), *lead, P.p, max_iter=kw["max_iter"], tol_rel=kw.get("tol", 1e-9), tol_abs=kw.get("tol", 1e-9), **k2)
        elif kind == "partial":
            S, lg = quiet(getattr(ot.gromov, "partial_" + f + "gromov_wasserstein"), *lead, P.p, P.q, m=mm, numItermax=kw["max_iter"], tol=kw.get("tol", 1e-7), **k2)
        elif kind == "entropic":
            S, lg = quiet(getattr(ot.gromov, "entropic_" + f + "gromov_wasserstein"), *lead, P.p, P.q, epsilon=eps, solver="PGD", max_iter=kw["max_iter"], tol=kw.get("tol", 1e-9), **k2)
        elif kind == "entropic-semirelaxed":
            S, lg = quiet(getattr(ot.gromov, "entropic_semirelaxed_" + f + "gromov_wasserstein"), *lead, P.p, epsilon=eps, max_iter=kw["max_iter"], tol=kw.get("tol", 1e-9), **k2)
        else:
            S, lg = quiet(getattr(ot.gromov, "entropic_partial_" + f + "gromov_wasserstein"), *lead, P.p, P.q, reg=eps, m=mm, numItermax=kw["max_iter"], tol=kw.get("tol", 1e-7), **k2)
        S = np.asarray(S)
        # by value: degenerate problems have many plans
        mon.close("gw-direct", P.obj(T, fused) + eps * entropy(T), P.obj(S, fused) + eps * entropy(S), 1e-5 * s, 1e-5, kind)


METRICS = ("sqeuclidean", "euclidean", "cityblock", "chebyshev")


@core.family(FAMILIES, 260, weight=2)
def sample(mon, rng, idx):
    n, m, d = int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(1, 4))
    x, y = gen.points(rng, n, d), gen.points(rng, m, d)
    metric = gen.pick(rng, METRICS)
    M = {"sqeuclidean": lambda D: (D ** 2).sum(-1), "euclidean": lambda D: np.sqrt((D ** 2).sum(-1)),
         "cityblock": lambda D: np.abs(D).sum(-1), "chebyshev": lambda D: np.abs(D).max(-1)}[metric](x[:, None] - y[None])
    sc = float(M.max()) + 1e-3
    a, b, a_, b_ = weights(rng, n, m, True)
    kw = {}
    k = int(rng.integers(6))
    if k:
        kw["reg"] = sc * float(10 ** rng.uniform(-0.7, 0.5))
        kw["reg_type"] = gen.pick(rng, ("KL", "entropy", "L2"))
        if rng.random() < 0.4:
            kw["c"] = rng.random((n, m)) + 0.1
    if k in (2, 3):
        kw["unbalanced"] = sc * float(10 ** rng.uniform(-0.5, 0.5))
        kw["unbalanced_type"] = gen.pick(rng, ("KL", "L2", "TV"))
    if k == 4:
        kw["plan_init"], kw["reg_type"] = np.outer(a, b), (lambda G: 0.5 * np.sum(G ** 2), lambda G: G)
    if k == 5:
        kw.update(max_iter=int(rng.integers(1, 20)), tol=float(10 ** rng.uniform(-6, -2)))
    if metric != "sqeuclidean" or rng.random() < 0.5:
        kw["metric"] = metric
    mon.case(x, y, a, b, n=n, m=m, d=d, metric=metric, kw=str({i: j for i, j in kw.items() if np.isscalar(j)}), nontrivial=n > 1 and m > 1)
    r1 = quiet(ot.solve_sample, x, y, a_, b_, **kw)
    kw.pop("metric", None)
    M2 = ot.dist(x, y, metric)
    mon.close("sample-value", M2, M, 1e-7 * sc if metric == "euclidean" else 1e-12 * sc + 1e-13 * float(np.abs(x).max() + np.abs(y).max()) ** 2, 1e-10, "cost matrix")
    r2 = quiet(ot.solve, M2, a_, b_, **kw)
    s = sc * 10
    mon.close("sample-value", float(r1.value), float(r2.value), 1e-6 * s, 1e-5)
    mon.close("sample-value", float(r1.value_linear), float(r2.value_linear), 1e-5 * s, 1e-4)
    P, Q = np.asarray(r1.plan), np.asarray(r2.plan)
    marginals(mon, r1, P)
    if k in (0, 4):  # not unique, or only close to optimal
        mon.close("sample-plan", float(np.sum(P * M)), float(np.sum(Q * M)), 1e-6 * s, 1e-5)
        if k == 0:
            judge_exact(mon, r1, a, b, M, sc)
    else:
        mon.close("sample-plan", P, Q, 1e-4, 1e-3)


@core.family(FAMILIES, 200, weight=2)
def lazy(mon, rng, idx):
    n, m, d = int(rng.integers(1, 12)), int(rng.integers(1, 12)), int(rng.integers(1, 4))
    x, y = gen.points(rng, n, d), gen.points(rng, m, d)
    exact = idx % 2 == 0
    metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock"))
    M = {"sqeuclidean": lambda D: (D ** 2).sum(-1), "euclidean": lambda D: np.sqrt((D ** 2).sum(-1)),
         "cityblock": lambda D: np.abs(D).sum(-1)}[metric](x[:, None] - y[None])
    sc = float(M.max()) + 1e-3
    a, b, a_, b_ = weights(rng, n, m, not exact)
    kw = dict(metric=metric, lazy=True)
    if exact:
        mon.event("lazy-exact")
        kw["reg"] = gen.pick(rng, (None, 0))
        if rng.random() < 0.3:
            kw["potentials_init"] = (rng.normal(size=n) * sc, rng.normal(size=m) * sc)
        mon.case(x, y, a, b, n=n, m=m, metric=metric, nontrivial=n > 1 and m > 1)
        res = quiet(ot.solve_sample, x, y, a_, b_, **kw)
        P = np.asarray(res.plan)
        judge_exact(mon, res, a, b, M, sc)
        S = res.sparse_plan
        mon.close("lazy-plan", S.toarray() if sp.issparse(S) else np.asarray(S), P, 0, 0)
        marginals(mon, res, P)
        return
    mon.event("lazy-sinkhorn")
    reg = sc * float(10 ** rng.uniform(-0.7, 0.6))
    bs = gen.pick(rng, (None, 1, 2, 3, 5, 7, 100))
    kw.update(reg=reg, batch_size=bs, reg_type=gen.pick(rng, ("KL", "entropy", "kl")), max_iter=3000, tol=1e-11)
    mon.case(x, y, a, b, n=n, m=m, metric=metric, reg=reg, bs=bs or 0, nontrivial=n > 1 and m > 1)
    res = quiet(ot.solve_sample, x, y, a_, b_, **kw)
    L = res.lazy_plan
    if not mon.true("lazy-plan", L is not None and tuple(L.shape) == (n, m)):
        return
    P = np.asarray(L[:])
    mon.close("value-linear", float(res.value_linear), float(np.sum(M * P)), 1e-8 * sc, 1e-8, "lazy")
    if res.value is not None:
        lin = float(np.sum(M * P))
        kl = lin + reg * float(np.sum(np.where(P > 0, P * np.log(np.maximum(P, 1e-300) / np.outer(a, b)), 0)))
        en = lin + reg * entropy(P)
        mon.close("value", float(res.value), en if kw["reg_type"] == "entropy" else kl, 1e-7 * (sc + reg), 1e-7, "lazy")
    u, v = (np.asarray(t) for t in res.potentials)
    mon.close("potentials-rebuild", np.exp(u[:, None] + v[None] - M / reg), P, 1e-9, 1e-7, "lazy")
    mon.close("lazy-marginals", np.asarray(res.marginal_a), P.sum(1), 1e-12, 1e-10)
    mon.close("lazy-marginals", np.asarray(res.marginal_b), P.sum(0), 1e-12, 1e-10)
    marginals(mon, res, P)
    if oracles.marg_err(P, a, b) < 1e-8:
        S = entropic_plan(a, b, M, reg)
        if S is not None:
            mon.close("entropic-plan", P, S, 1e-6, 1e-5, "lazy")
    else:
        mon.event("not-converged")


@core.family(FAMILIES, 200, weight=2)
def methods(mon, rng, idx):
    method = ("1d", "gaussian", "factored", "lowrank", "nystroem")[idx % 5]
    n, m, d = int(rng.integers(2, 14)), int(rng.integers(2, 14)), int(rng.integers(1, 4))
    x, y = rng.normal(size=(n, d)), rng.normal(size=(m, d)) * float(rng.uniform(0.5, 2)) + 0.3
    a, b, a_, b_ = weights(rng, n, m, True)
    keep = bool(rng.random() < 0.5)
    kw = dict(method=case_mix(rng, method), lazy=keep)
    M = ((x[:, None] - y[None]) ** 2).sum(-1)
    sc = float(M.max())
    mon.case(x, y, a, b, method=method, keep=keep, given=(a_ is not None, b_ is not None), n=n, m=m, d=d)
    if method == "1d":
        mon.event("1d")
        metric = gen.pick(rng, ("sqeuclidean", "euclidean", "cityblock"))
        res = quiet(ot.solve_sample, x, y, a_, b_, metric=metric, **kw)
        p = 2 if metric == "sqeuclidean" else 1
        want = [float(np.sum(oracles.monotone_plan(x[:, k], y[:, k], a, b) * np.abs(x[:, k][:, None] - y[:, k][None]) ** p)) for k in range(d)]
        mon.close("value", np.asarray(res.value).ravel(), np.array(want), 1e-9 * sc, 1e-9, "1d")
        mon.close("value-linear", np.asarray(res.value_linear).ravel(), np.array(want), 1e-9 * sc, 1e-9, "1d")
        mon.raises("refused", lambda: ot.solve_sample(x, y, metric="chebyshev", **kw), NotImplementedError)
        return
    if method == "gaussian":
        mon.event("weighted-gaussian" if a_ is not None or b_ is not None else "gaussian")
        reg = gen.pick(rng, (None, 1e-3, 0.1))
        res = quiet(ot.solve_sample, x, y, a_, b_, reg=reg, **kw)
        r = 1e-6 if reg is None else reg
        mo = []
        for z, w in ((x, a), (y, b)):
            mu = w @ z
            mo.append((mu, (z - mu).T @ ((z - mu) * w[:, None]) + r * np.eye(d)))
        ev, V = np.linalg.eigh(mo[0][1])
        S = V @ np.diag(np.sqrt(ev)) @ V.T
        e2 = np.linalg.eigvalsh(S @ mo[1][1] @ S)
        want = float(np.sum((mo[0][0] - mo[1][0]) ** 2) + np.trace(mo[0][1]) + np.trace(mo[1][1]) - 2 * np.sqrt(np.maximum(e2, 0)).sum())
        mon.close("value", float(res.value), want, 1e-7 * sc, 1e-7, "gaussian")
        mon.close("value-linear", float(res.value_linear), want, 1e-7 * sc, 1e-7, "gaussian")
        return
    rank = int(rng.integers(1, 1 + min(n, m)))
    kw["rank"] = rank
    reg = {"factored": gen.pick(rng, (None, 0)), "lowrank": gen.pick(rng, (None, 0.5)), "nystroem": sc * float(rng.uniform(0.3, 2))}[method]
    kw["reg"] = reg
    if method == "factored":
        mon.event("weighted-factored" if a_ is not None or b_ is not None else "factored")
        kw["max_iter"] = 30
    elif method == "lowrank":
        mon.event("lowrank")
        kw["max_iter"] = 200
        if min(a.min(), b.min()) < 1e-3:
            raise core.Skip()
    else:
        mon.event("nystroem")
        kw.update(rank=min(n, m), random_state=int(rng.integers(100)), max_iter=300)
        if rng.random() < 0.3:
            kw.pop("rank")
    np.random.seed(int(rng.integers(10000)))
    res = quiet(ot.solve_sample, x, y, a_, b_, **kw)
    L = res.lazy_plan
    if not mon.true("lazy-plan", L is not None and tuple(L.shape) == (n, m), method):
        return
    P = np.asarray(L[:])
    mon.close("lazy-marginals", np.asarray(res.marginal_a), P.sum(1), 1e-9, 1e-8)
    mon.close("lazy-marginals", np.asarray(res.marginal_b), P.sum(0), 1e-9, 1e-8)
    mon.true("result-fields", (res.plan is None) == keep, "dense plan only when not lazy")
    if not keep:
        mon.close("lazy-plan", np.asarray(res.plan), P, 1e-12, 1e-10)
    if method == "factored":
        mon.le("lazy-marginals", max(oracles.marg_err(P, a, b), float(-P.min())), 1e-8, "factored plan couples the given weights")
        Q, R, X = (np.asarray(z) for z in quiet(ot.factored_optimal_transport, x, y, a, b, r=rank, X0=np.asarray(res.log["X"]), numItermax=1))
        mon.true("result-fields", float(res.value) >= -1e-9 and float(res.value_linear) >= -1e-9)
    elif method == "lowrank":
        mon.le("lazy-marginals", max(oracles.marg_err(P, a, b), float(-P.min())), 2e-2, "low-rank plan couples the given weights")
        mon.close("value-linear", float(res.value_linear), float(np.sum(M * P)), 1e-6 * sc, 1e-6, method)
        ent = sum(float(np.sum(z * np.log(z + 1e-16))) for z in (L.Q, L.R, 1 / np.asarray(L.d)))
        mon.close("value", float(res.value), float(np.sum(M * P)) + (reg or 0) * ent, 1e-6 * sc, 1e-6, method)
    else:
        mon.close("value-linear", float(res.value_linear), float(np.sum(M * P)), 1e-6 * sc * max(1.0, np.abs(P).sum()), 1e-6, method)
        mon.close("lazy-marginals", P.sum(0), b, 1e-3, 0, "nystroem column marginals") if np.isfinite(P).all() and res.log["err"] and res.log["err"][-1] < 1e-6 else mon.event("not-converged")


@core.family(FAMILIES, 60)
def result(mon, rng, idx):
    """OTResult: every view of a plan is the same plan."""
    from ot.utils import LazyTensor, OTResult
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    P = rng.random((n, m)) * (rng.random((n, m)) < 0.5)
    kind = ("dense", "sparse", "lazy", "none")[idx % 4]
    u, v = rng.normal(size=n), rng.normal(size=m)
    mon.case(P, u, v, kind=kind)
    bs = int(rng.integers(1, 7))
    kw = dict(potentials=(u, v), value=3.0, value_linear=1.0, value_quad=2.0, status="Converged", log={"x": 1}, batch_size=bs)
    if kind == "dense":
        r = OTResult(plan=P, **kw)
    elif kind == "sparse":
        r = OTResult(sparse_plan=sp.csr_matrix(P) if rng.random() < 0.5 else sp.coo_matrix(P), **kw)
    elif kind == "lazy":
        r = OTResult(lazy_plan=LazyTensor((n, m), lambda i, j, P: P[i, j], P=P), **kw)
    else:
        r = OTResult()
        mon.true("result-fields", all(getattr(r, k) is None for k in ("potentials", "potential_a", "potential_b", "value", "value_linear", "value_quad", "plan",
                                                                   "sparse_plan", "lazy_plan", "marginals", "marginal_a", "marginal_b", "status", "log")))
        mon.true("result-fields", isinstance(repr(r), str))
        return
    marginals(mon, r, P)
    mon.true("result-fields", r.value == 3.0 and r.value_linear == 1.0 and r.value_quad == 2.0 and r.status == "Converged" and r.log == {"x": 1})
    mon.true("result-fields", r.potential_a is u and r.potential_b is v and isinstance(repr(r), str))
    if kind != "lazy":
        mon.close("result-fields", np.asarray(r.plan), P, 0, 0)
        mon.close("result-fields", np.asarray(r.sparse_plan.todense()), P, 0, 0)
    else:
        mon.close("result-fields", np.asarray(r.lazy_plan[:]), P, 0, 0)
