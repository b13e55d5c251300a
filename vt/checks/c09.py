"""Entropic OT.  Each variant's plan is certified by its own KKT conditions, no reference
solver needed: non-negative, both marginals within what the stopping rule promises, and
log(plan) + M/reg is a sum of a row and a column term on the support (Gibbs form).  These
determine the plan uniquely, so any two variants agree up to the certified error.  Potentials
in the logs must regenerate the plan, losses must be <M, plan> (one per histogram), warm
starts (good, stale, random) must not change the answer.  Runs that warn are counted as
not converged (events) and only have to be finite; C04 owns the silent failures."""

import warnings

import numpy as np

import ot
from vt import core, gen

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("gibbs", "col-marginal", "loss", "multi-loss", "warm-same", "screen-marginals")
REQUIRED_EVENTS = ("converged",)


def run(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            r = f(*a, **k)
    txt = " | ".join(str(x.message) for x in w)
    return r, ("converge" in txt or "umerical" in txt)


def gibbs(P, M, reg):
    """Largest deviation of log P + M/reg from a rank-one additive form, on support rows/cols."""
    I, J = P.sum(1) > 0, P.sum(0) > 0
    P, C = P[np.ix_(I, J)], M[np.ix_(I, J)] / reg
    if P.size == 0 or P.shape[0] < 2 or P.shape[1] < 2:
        return 0.0
    ok = P > 1e-280
    if not ok.all():
        # underflowed entries: compare on the entries reached from a full row / column
        full = ok.all(1)
        if not full.any():
            return 0.0
        P, C, ok = P, C, ok
        R = np.where(ok, np.log(np.where(ok, P, 1)) + C, 0)
        r0 = R[np.argmax(full)]
        D = np.where(ok, R - r0, 0)
        c = D.sum(1) / ok.sum(1)
        return float(np.abs(np.where(ok, D - c[:, None], 0)).max())
    R = np.log(P) + C
    return float(np.abs(R - R[:1] - R[:, :1] + R[0, 0]).max())


def problem(rng, hi=12, zeros=False):
    n, m = int(rng.integers(1, hi)), int(rng.integers(1, hi))
    kinds = ("uniform", "dirichlet", "skewed", "dyadic", "geometric") + (("sparse",) if zeros else ())
    a, b = gen.weights(rng, n, gen.pick(rng, kinds)), gen.weights(rng, m, gen.pick(rng, kinds))
    M = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "ties", "random", "signed", "constant", "dupes", "lowrank", "huge", "tiny")))
    s = max(np.ptp(M), 1e-3)
    # potentials are of the size of max|M|/reg: keep them far below 1/eps
    reg = max(s * float(10 ** rng.uniform(-1.7, 1)), np.abs(M).max() / 1e5)
    return a, b, M, reg


#: (method, marginal the last half-step makes exact, options)
METHODS = {
    "sinkhorn": dict(exact="row", power=1),
    "sinkhorn_log": dict(exact="row", power=1),
    "sinkhorn_stabilized": dict(exact="row", power=1),
    "sinkhorn_epsilon_scaling": dict(exact="row", power=0.5),
    "greenkhorn": dict(exact=None, power=1),
}


def tolerances(method, thr, a, b):
    if method == "greenkhorn":  # max-norm of the violations before the last update
        return 4 * thr * (len(a) + len(b)) + 1e-12, 4 * thr * (len(a) + len(b)) + 1e-12
    col = thr ** METHODS[method]["power"] * 1.01 + 1e-12
    return (col if method == "sinkhorn_epsilon_scaling" else 1e-9), col


def logs_to_plan(method, log, M, reg):
    if method == "sinkhorn_log":
        return np.exp(log["log_u"][:, None] + log["log_v"][None] - M / reg)
    if method == "sinkhorn_stabilized":
        return np.exp(log["logu"][:, None] + log["logv"][None] - M / reg)
    if method == "sinkhorn_epsilon_scaling":
        return None
    with np.errstate(all="ignore"):
        return log["u"][:, None] * np.exp(-M / reg) * log["v"][None]


@core.family(FAMILIES, 1100)
def variants(mon, rng, idx):
    a, b, M, reg = problem(rng, zeros=rng.random() < 0.2)
    method = gen.pick(rng, list(METHODS))
    thr = float(gen.pick(rng, (1e-9, 1e-6, 1e-4)))
    kw = dict(stopThr=thr, numItermax=20000 if method != "sinkhorn_epsilon_scaling" else 150)
    if method in ("sinkhorn_stabilized", "sinkhorn_epsilon_scaling"):
        kw["tau"] = float(gen.pick(rng, (1e3, 20.0, 1e5)))
    zeros = bool((a == 0).any() or (b == 0).any())
    if zeros and method == "sinkhorn_epsilon_scaling":
        method = "sinkhorn_log"
        kw = dict(stopThr=thr, numItermax=20000)
    lay = gen.layout(rng, M)
    mon.case(a, b, M, n=len(a), m=len(b), reg=reg, method=method, thr=thr, zeros=zeros, tau=kw.get("tau", 0.0),
             nontrivial=len(a) + len(b) > 2)
    M0, a0, b0 = lay.copy(), a.copy(), b.copy()
    (P, log), bad = run(ot.sinkhorn, a, b, lay, reg, method=method, log=True, **kw)
    mon.true("inputs-intact", np.array_equal(lay, M0) and np.array_equal(a, a0) and np.array_equal(b, b0))
    mon.true("shape", P.shape == M.shape)
    mon.event("warned" if bad else "converged")
    if bad:
        return
    mon.event("converged-" + method)
    if not mon.finite("finite", P):
        return
    mon.le("non-negative", -P.min(), 0.0)
    rt, ct = tolerances(method, thr, a, b)
    mon.le("row-marginal", np.abs(P.sum(1) - a).max(), rt)
    mon.le("col-marginal", np.linalg.norm(P.sum(0) - b), ct)
    # epsilon scaling carries potentials of the size of epsilon0 = 1e4
    fp = 1e-9 / reg if method == "sinkhorn_epsilon_scaling" else 0.0
    mon.le("gibbs", gibbs(P, M, reg), 1e-9 * (1 + np.abs(M).max() / reg) + fp)
    Q = logs_to_plan(method, log, M, reg)
    if Q is not None:
        mon.close("potentials-regenerate", Q, P, 1e-10)
    if method in ("sinkhorn_stabilized", "sinkhorn_epsilon_scaling"):
        with np.errstate(all="ignore"):
            Q = np.exp((log["alpha"][:, None] + log["beta"][None] - M) / reg)
        mon.close("alpha-beta-regenerate", Q, P, 1e-9 + fp)
    if method in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
        e = float(log["err"][-1])
        mon.close("reported-error", e, np.linalg.norm(P.sum(0) - b), 1e-12)
        v, bad2 = run(ot.sinkhorn2, a, b, M, reg, method=method, **kw)
        mon.close("loss", float(v), float((M * P).sum()), 1e-9 * (1 + np.abs(M).max()))
        (v, l2), _ = run(ot.sinkhorn2, a, b, M, reg, method=method, log=True, **kw)
        mon.close("loss", float(v), float((M * P).sum()), 1e-9 * (1 + np.abs(M).max()))
    P2, _ = run(ot.sinkhorn, a, b, M, reg, method=method, **kw)
    mon.close("log-call", P2, P, 1e-12 if method != "greenkhorn" else 20 * rt)  # ties follow the layout
    # equivariances
    if idx % 2 and not zeros:
        ca, cb = rng.normal(size=len(a)) * 0.5 * reg, rng.normal(size=len(b)) * 0.5 * reg
        P3, bad3 = run(ot.sinkhorn, a, b, M + ca[:, None] + cb[None], reg, method=method, **kw)
        if not bad3:
            # gauge: same Gibbs class, marginals to the same accuracy
            mon.le("gauge", gibbs(P3, M, reg), 1e-8 * (1 + np.abs(M).max() / reg) + fp)
            mon.le("gauge-marginal", np.linalg.norm(P3.sum(0) - b), ct)
    k = float(gen.pick(rng, (2.0, 0.125)))
    P4, bad4 = run(ot.sinkhorn, a, b, M * k, reg * k, method=method, **kw)
    if not bad4 and method != "sinkhorn_epsilon_scaling":
        mon.close("scale-cost-and-reg", P4, P, 1e-9 if method != "greenkhorn" else 20 * rt)


@core.family(FAMILIES, 250)
def agree(mon, rng, idx):
    """All variants at a tight threshold, against each other."""
    a, b, M, reg = problem(rng, 9)
    reg = max(reg, 0.1 * np.ptp(M))
    mon.case(a, b, M, n=len(a), m=len(b), reg=reg, nontrivial=len(a) + len(b) > 2)
    plans = {}
    for m in METHODS:
        kw = dict(stopThr=1e-13, numItermax=4000)
        if m == "sinkhorn_epsilon_scaling":
            kw = dict(stopThr=1e-24, numItermax=60, numInnerItermax=100)
        P, bad = run(ot.sinkhorn, a, b, M, reg, method=m, warn=True, **kw)
        if not bad or (m == "sinkhorn_epsilon_scaling" and np.ptp(M) < 1e4 and np.isfinite(P).all()):
            plans[m] = P
    if "sinkhorn_log" not in plans or np.linalg.norm(plans["sinkhorn_log"].sum(0) - b) > 1e-12:
        raise core.Skip
    ref = plans["sinkhorn_log"]
    for m, P in plans.items():
        err = max(np.abs(P.sum(0) - b).max(), np.abs(P.sum(1) - a).max())
        if m == "sinkhorn_epsilon_scaling" and err > 1e-10:
            continue
        mon.event("agree-" + m)
        # both certified: the log-ratio is additive, so the difference is bounded by the
        # marginal errors amplified by the conditioning exp(osc(M)/reg)
        mon.close("variants-agree", P, ref, 1e-8)
    PT, bad = run(ot.sinkhorn, b, a, M.T.copy(), reg, method="sinkhorn_log", stopThr=1e-13, numItermax=4000)
    if not bad:
        mon.close("transpose", PT.T, ref, 1e-8)
    qa, qb = rng.permutation(len(a)), rng.permutation(len(b))
    Pq, bad = run(ot.sinkhorn, a[qa], b[qb], M[np.ix_(qa, qb)], reg, stopThr=1e-13, numItermax=4000)
    if not bad:
        mon.close("permute", Pq, ref[np.ix_(qa, qb)], 1e-8)
    # entropic optimality against random feasible directions
    H = lambda P: float((P * M).sum() + reg * (P * np.log(np.maximum(P, 1e-300))).sum())
    for _ in range(3):
        if min(ref.shape) < 2:
            break
        i, k = rng.choice(len(a), 2, replace=False)
        j, l = rng.choice(len(b), 2, replace=False)
        t = 0.2 * min(ref[i, j], ref[k, l])
        Q = ref.copy()
        Q[i, j] -= t
        Q[k, l] -= t
        Q[i, l] += t
        Q[k, j] += t
        mon.le("objective-minimal", H(ref) - H(Q), 1e-9 * (1 + np.abs(M).max() + reg))


@core.family(FAMILIES, 600)
def many(mon, rng, idx):
    """Several target histograms."""
    a, _, M, reg = problem(rng, 9)
    reg = max(reg, 0.05 * np.ptp(M))
    m = M.shape[1]
    k = int(rng.integers(1, 5))
    B = np.stack([gen.weights(rng, m, gen.pick(rng, ("uniform", "dirichlet", "dyadic"))) for _ in range(k)], 1)
    method = gen.pick(rng, ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"))
    thr = 1e-10
    kw = dict(stopThr=thr, numItermax=20000)
    if method == "sinkhorn_stabilized":
        kw["tau"] = float(gen.pick(rng, (1e3, 50.0)))
    via = gen.pick(rng, (ot.sinkhorn, ot.sinkhorn2))
    mon.case(a, B, M, n=len(a), m=m, k=k, reg=reg, method=method, via=via.__name__)
    (v, log), bad = run(via, a, B, M, reg, method=method, log=True, **kw)
    v = np.asarray(v)
    mon.true("multi-shape", v.shape == (k,), lambda: str(v.shape))
    mon.event("warned" if bad else "converged")
    if bad:
        return
    if method == "sinkhorn":
        lu, lv = np.log(log["u"]), np.log(log["v"])
    elif method == "sinkhorn_log":
        lu, lv = log["log_u"], log["log_v"]
    else:
        lu, lv = log["logu"], log["logv"]
    mon.true("multi-potential-shape", lu.shape == (len(a), k) and lv.shape == (m, k), lambda: "%s %s" % (lu.shape, lv.shape))
    s = 1 + np.abs(M).max()
    tol = 1e-6 if method == "sinkhorn_stabilized" else 1e-8  # that one stops on relative updates
    for j in range(k):
        P = np.exp(lu[:, j][:, None] + lv[:, j][None] - M / reg)
        mon.close("multi-row-marginal", P.sum(1), a, tol)
        mon.close("multi-col-marginal", P.sum(0), B[:, j], tol)
        mon.close("multi-loss", v[j], float((M * P).sum()), 1e-9 * s)
        (v1, l1), bad1 = run(ot.sinkhorn2, a, B[:, j].copy(), M, reg, method="sinkhorn_log", log=True, **kw)
        if not bad1:
            mon.close("multi=single", v[j], float(v1), 1e-6 * s)
    v2, _ = run(via, a, B, M, reg, method=method, **kw)
    mon.close("multi-log-call", np.asarray(v2), v, 1e-10 * s)
    q = rng.permutation(k)
    vq, badq = run(via, a, B[:, q], M, reg, method=method, **kw)
    if not badq:
        mon.close("multi-permute", np.asarray(vq), v[q], 1e-6 * s)


@core.family(FAMILIES, 400)
def warm(mon, rng, idx):
    a, b, M, reg = problem(rng, 10)
    reg = max(reg, 0.08 * np.ptp(M))
    n, m = M.shape
    method = gen.pick(rng, list(METHODS))
    kind = gen.pick(rng, ("random", "zero", "own", "stale"))
    thr = 1e-11
    kw = dict(stopThr=thr, numItermax=4000)
    if method == "sinkhorn_epsilon_scaling":
        kw = dict(stopThr=1e-22, numItermax=60, numInnerItermax=100)
    (P, log), bad = run(ot.sinkhorn, a, b, M, reg, method="sinkhorn_log", log=True, stopThr=1e-13, numItermax=4000)
    if bad:
        raise core.Skip
    f, g = log["log_u"], log["log_v"]
    if kind == "random":
        f, g = rng.normal(size=n), rng.normal(size=m)
    elif kind == "zero":
        f, g = np.zeros(n), np.zeros(m)
    elif kind == "stale":
        f, g = f + rng.normal(size=n), g - 1.0
    ws = (f, g)
    if method in ("sinkhorn_stabilized", "sinkhorn_epsilon_scaling"):
        ws = (f * reg, g * reg)
    mon.case(a, b, M, f, n=n, m=m, reg=reg, method=method, kind=kind)
    c0, c1 = ws[0].copy(), ws[1].copy()
    (Q, log), bad = run(ot.sinkhorn, a, b, M, reg, method=method, warmstart=ws, log=True, **kw)
    mon.true("warm-intact", np.array_equal(ws[0], c0) and np.array_equal(ws[1], c1))
    if bad and (method != "sinkhorn_epsilon_scaling" or np.ptp(M) > 1e4):
        mon.event("warned")
        return
    if method == "sinkhorn_epsilon_scaling" and np.linalg.norm(Q.sum(0) - b) > 1e-9:
        mon.event("warned")
        return
    mon.event("converged")
    mon.close("warm-same", Q, P, 1e-7)
    if kind == "own" and method in ("sinkhorn", "sinkhorn_log"):
        mon.true("warm-converges-at-once", log["niter"] <= 10, lambda: str(log["niter"]))


@core.family(FAMILIES, 250)
def screened(mon, rng, idx):
    n, m = int(rng.integers(2, 14)), int(rng.integers(2, 14))
    a, b = gen.weights(rng, n, gen.pick(rng, ("uniform", "dirichlet"))), gen.weights(rng, m, gen.pick(rng, ("uniform", "dirichlet")))
    M = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "random", "euclid", "ties")))
    reg = max(np.ptp(M), 0.1) * float(10 ** rng.uniform(-0.7, 0.7))
    restricted = bool(rng.random() < 0.7)
    full = bool(rng.random() < 0.6)
    nb, mb = (n, m) if full else (int(rng.integers(1, n + 1)), int(rng.integers(1, m + 1)))
    mon.case(a, b, M, n=n, m=m, reg=reg, full=full, restricted=restricted)
    try:
        (G, log), _ = run(ot.bregman.screenkhorn, a, b, M, reg, ns_budget=nb, nt_budget=mb, restricted=restricted, log=True)
    except ValueError as e:  # screening can select nothing / leave an empty box
        if full:
            raise
        mon.event("screen-rejected")
        return
    if not mon.finite("screen-finite", G):
        return
    mon.le("screen-nonneg", -G.min(), 0.0)
    mon.close("screen-mass", G.sum(), 1.0, 1e-9)
    Q = log["u"][:, None] * np.exp(-M / reg) * log["v"][None]
    mon.close("screen-potentials", Q / Q.sum(), G, 1e-10)
    mon.le("screen-gibbs", gibbs(G, M, reg), 1e-8 * (1 + np.abs(M).max() / reg))
    if full or (nb == n and mb == m):
        mon.le("screen-marginals", max(np.abs(G.sum(1) - a).max(), np.abs(G.sum(0) - b).max()), 2e-2)
