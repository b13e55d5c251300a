"""Unbalanced OT.  The oracle is weak duality, computed by the check: the returned plan gives an
upper bound (the documented functional, evaluated by the check), and potentials read off the
plan's marginals, made feasible and improved by the check's own ascent on the documented dual,
give a lower bound; a gap means that the plan is not a minimiser.  This decides every solver,
divergence, reference measure and pair of penalties alone; infinite penalties must be exact
marginals, and reported costs must equal the functional.  The 1D solver's potentials must be
feasible and its dual value must close the gap as the Frank-Wolfe budget grows."""

import warnings

import numpy as np
from scipy.optimize import minimize
from scipy.special import logsumexp

import ot
from vt import core, gen, oracles

FAMILIES = {}
BACKENDS = ("torch",)
REQUIRED = ("optimal", "cost-truthful", "infinite-marginal", "multi-hist", "mm-optimal", "lbfgs-optimal", "bary-kkt",
            "bary-agree", "uot1d-dual-feasible", "uot1d-gap", "uot1d-cost", "sliced-mean", "usot-cost")
REQUIRED_EVENTS = ("converged", "asymmetric-penalties", "one-infinite")
INF = float("inf")


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            r = f(*a, **k)
    return r, " | ".join(str(x.message) for x in w)


def measures(rng, n, m, k=("uniform", "dirichlet", "dyadic", "geometric")):
    return (gen.weights(rng, n, gen.pick(rng, k)) * 10 ** rng.uniform(-0.7, 0.7),
            gen.weights(rng, m, gen.pick(rng, k)) * 10 ** rng.uniform(-0.7, 0.7))


def penalties(mon, rng, scale, inf=True):
    """The value handed to the solver, and the pair it stands for."""
    r = [float(scale * 10 ** rng.uniform(-1, 1)) for _ in range(2)]
    k = int(rng.integers(7 if inf else 5))
    if k == 0:
        return r[0], (r[0], r[0])
    if k == 1:
        return (r[0],), (r[0], r[0])
    if k == 5:
        r[int(rng.integers(2))] = INF
        mon.event("one-infinite")
    elif k == 6:
        return INF, (INF, INF)
    else:
        mon.event("asymmetric-penalties")
    return (tuple(r) if k != 4 else list(r)), tuple(r)


class Problem:
    """min <M,P> + reg R(P|c) + rho1 D(P1|a) + rho2 D(P'1|b); R in kl/entropy/l2/None, D in kl/l2/tv."""

    def __init__(self, a, b, M, reg, R, c, D, r1, r2):
        self.a, self.b, self.M, self.reg, self.R, self.D, self.r = a, b, M, reg, R, D, (r1, r2)
        self.c = np.outer(a, b) if c is None else c
        if R == "entropy":
            self.c = np.ones_like(M)

    def pen(self, m, w, rho):
        if rho == INF:
            return 0.0
        if self.D == "kl":
            return rho * oracles.xlogx_div(m, w)
        return rho * (0.5 * np.sum((m - w) ** 2) if self.D == "l2" else np.abs(m - w).sum())

    def primal(self, P):
        v = np.sum(self.M * P) + self.pen(P.sum(1), self.a, self.r[0]) + self.pen(P.sum(0), self.b, self.r[1])
        if self.reg > 0:
            if self.R == "l2":
                v += self.reg * 0.5 * np.sum((P - self.c) ** 2)
            elif self.R == "entropy":
                Q = P[P > 0]
                v += self.reg * (np.sum(Q * np.log(Q)) - Q.sum())
            else:
                v += self.reg * oracles.xlogx_div(P, self.c)
        return float(v)

    # dual: sum phi(f) + sum psi(g) - reg part, concave in (f, g)
    def marg(self, f, w, rho):
        if rho == INF:
            return np.sum(w * f), w
        if self.D == "kl":
            e = w * np.exp(np.clip(-f / rho, -700, 200))
            return -rho * np.sum(e - w), e
        return np.sum(w * f) - np.sum(f * f) / (2 * rho), w - f / rho

    def coupling(self, s):
        if self.R == "l2":
            P = np.maximum(0, self.c + s / self.reg)
            return float(np.sum(s * P) - self.reg * 0.5 * np.sum((P - self.c) ** 2)), P
        P = self.c * np.exp(np.clip(s / self.reg, -700, 200))
        return float(self.reg * np.sum(P - (0 if self.R == "entropy" else self.c))), P

    def dual(self, f, g):
        v1, g1 = self.marg(f, self.a, self.r[0])
        v2, g2 = self.marg(g, self.b, self.r[1])
        if self.reg > 0:
            v3, P = self.coupling(f[:, None] + g[None] - self.M)
            return v1 + v2 - v3, g1 - P.sum(1), g2 - P.sum(0)
        return v1 + v2, g1, g2

    def potentials(self, P):
        m1, m2 = P.sum(1), P.sum(0)
        with np.errstate(all="ignore"):
            d = (lambda m, w, r: -r * np.log(np.maximum(m, 1e-300) / w)) if self.D == "kl" else (lambda m, w, r: -r * (m - w))
            f = None if self.r[0] == INF else d(m1, self.a, self.r[0])
            g = None if self.r[1] == INF else d(m2, self.b, self.r[1])
            if f is None or g is None:
                T = self.M + self.reg * np.log(np.maximum(P, 1e-300) / self.c)
                if f is None and g is None:
                    g = T[0] - T[0, 0]
                if f is None:
                    f = (T - g[None]).mean(1)
                else:
                    g = (T - f[:, None]).mean(0)
        return f, g

    def lower(self, P, polish=60):
        """A rigorous lower bound of the minimum."""
        f, g = self.potentials(P)
        n = len(f)
        if self.reg > 0:
            best = self.dual(f, g)[0]
            if polish and not best >= self.primal(P) * (1 - 1e-9) - 1e-12:
                def neg(x):
                    v, gf, gg = self.dual(x[:n], x[n:])
                    return -v, -np.r_[gf, gg]
                r = minimize(neg, np.r_[f, g], jac=True, method="L-BFGS-B",
                             options=dict(maxiter=polish * 10, maxfun=polish * 20, ftol=1e-16, gtol=1e-12))
                best = np.nanmax([best, -r.fun])
            return float(best)
        best = -INF
        g0, f0 = (self.M - f[:, None]).min(0), (self.M - g[None]).min(1)
        for F, G in ((np.minimum(f, (self.M - g[None]).min(1)), g), (f, np.minimum(g, g0)), (f0, np.minimum(g, (self.M - f0[:, None]).min(0)))):
            slack = (self.M - F[:, None] - G[None]).min()
            if slack < 0:
                F = F + slack
            best = max(best, self.dual(F, G)[0])
        return float(best)


def instance(rng, nmax=8):
    n, m = int(rng.integers(1, nmax)), int(rng.integers(1, nmax))
    a, b = measures(rng, n, m)
    M = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "random", "ties", "constant", "dupes", "monge")))
    if rng.random() < 0.1:
        M = M - 0.3 * rng.random((n, m))
    return n, m, a, b, M


METHODS = {"sinkhorn": ot.unbalanced.sinkhorn_knopp_unbalanced,
           "sinkhorn_stabilized": ot.unbalanced.sinkhorn_stabilized_unbalanced,
           "sinkhorn_translation_invariant": ot.unbalanced.sinkhorn_unbalanced_translation_invariant}


@core.family(FAMILIES, 550, weight=2)
def scaling(mon, rng, idx):
    n, m, a, b, M = instance(rng)
    scale = float(np.abs(M).max()) + 1e-3
    reg = scale * float(10 ** rng.uniform(-1.3, 0.5))
    rm, (r1, r2) = penalties(mon, rng, scale)
    if r1 == r2 == INF:
        b = b * a.sum() / b.sum()
    method = gen.pick(rng, sorted(METHODS))
    reg_type = gen.pick(rng, ("kl", "kl", "entropy"))
    c = rng.random((n, m)) + 0.1 if rng.random() < 0.3 else None
    kw = dict(reg_type=reg_type, c=c, stopThr=1e-13, numItermax=6000)
    if method == "sinkhorn_stabilized" and rng.random() < 0.5:
        kw["tau"] = float(gen.pick(rng, (1e5, 100.0, 4.0)))
    if rng.random() < 0.3:
        kw["warmstart"] = (0.5 * rng.normal(size=n), 0.5 * rng.normal(size=m))
    mon.case(a, b, M, c, n=n, m=m, reg=reg, r1=r1, r2=r2, method=method, reg_type=reg_type, tau=kw.get("tau", 0.0),
             nontrivial=n > 1 and m > 1)
    a0, b0, M0 = a.copy(), b.copy(), M.copy()
    via = rng.random() < 0.7
    f = (lambda *x, **k: ot.unbalanced.sinkhorn_unbalanced(*x, method=method, **k)) if via else METHODS[method]
    uniform = rng.random() < 0.1
    if uniform:
        a, b = np.ones(n) / n, np.ones(m) / m
        (P, log), txt = quiet(f, [], [], M, reg, rm, log=True, **kw)
    else:
        (P, log), txt = quiet(f, a, b, M, reg, rm, log=True, **kw)
        mon.true("inputs-intact", np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(M, M0))
    mon.true("shape", P.shape == (n, m))
    if "umerical" in txt or not log["err"] or not log["err"][-1] < 1e-13:
        mon.event("not-converged")
        return
    mon.event("converged")
    pb = Problem(a, b, M, reg, reg_type, c, "kl", r1, r2)
    mon.true("nonnegative", np.isfinite(P).all() and (P >= 0).all())
    for r, got, w in ((r1, P.sum(1), a), (r2, P.sum(0), b)):
        if r == INF:
            mon.le("infinite-marginal", np.abs(got - w).max(), 1e-8 * max(1.0, w.max()), "weights kept exactly")
    up = pb.primal(P)
    s = abs(up) + reg * P.sum() + scale * P.sum() + reg * pb.c.sum() * (reg_type == "kl")
    mon.le("optimal", up - pb.lower(P), 1e-7 * s, method)
    cost = float(np.sum(P * M))
    mon.close("linear-truthful", float(log["cost"]), cost, 1e-9 * s, 1e-9)
    tot = up + (reg * n * m if reg_type == "entropy" else 0.0)
    mon.close("cost-truthful", float(log["total_cost"]), tot, 1e-8 * (s + reg * n * m), 1e-9, method)
    u, v = np.asarray(log["logu"]), np.asarray(log["logv"])
    Q = pb.c * np.exp(u[:, None] + v[None] - M / reg)
    mon.close("potentials", Q, P, 1e-9 * P.max() + 1e-290, 1e-7, "the logged potentials rebuild the plan")
    if not uniform:
        for rc, want in (("linear", cost), ("total", tot)):
            v, _ = quiet(ot.unbalanced.sinkhorn_unbalanced2, a, b, M, reg, rm, method=method, returnCost=rc, **kw)
            mon.close("value-" + rc, float(v), want, 1e-8 * (s + reg * n * m), 1e-8, method)


@core.family(FAMILIES, 120)
def multihist(mon, rng, idx):
    """Several target histograms at once: same losses as one at a time (entropic reference)."""
    n, m, a, _, M = instance(rng)
    M = np.maximum(M, 0)
    k = int(rng.integers(1, 4))
    B = np.stack([measures(rng, n, m)[1] for _ in range(k)], 1)
    scale = float(np.abs(M).max()) + 1e-3
    reg = scale * float(10 ** rng.uniform(-1, 0.5))
    rm, (r1, r2) = penalties(mon, rng, scale, inf=False)
    method = gen.pick(rng, sorted(METHODS))
    mon.case(a, B, M, n=n, m=m, k=k, reg=reg, r1=r1, r2=r2, method=method, nontrivial=n > 1 and m > 1)
    kw = dict(method=method, stopThr=1e-13, numItermax=6000)
    f = ot.unbalanced.sinkhorn_unbalanced2 if rng.random() < 0.5 else ot.unbalanced.sinkhorn_unbalanced
    (L, log), txt = quiet(f, a, B, M, reg, rm, log=True, **kw)
    mon.true("multi-shape", np.shape(L) == (k,))
    if "umerical" in txt or not log["err"][-1] < 1e-13:
        mon.event("not-converged")
        return
    mon.event("converged")
    want = []
    for j in range(k):
        (P, lg), _ = quiet(ot.unbalanced.sinkhorn_unbalanced, a, B[:, j], M, reg, rm, reg_type="entropy", log=True,
                           stopThr=1e-13, numItermax=6000)
        if not lg["err"][-1] < 1e-13:
            raise core.Skip()
        if max(np.abs(lg["logu"]).max(), np.abs(lg["logv"]).max()) > 28:
            mon.event("beyond-scaling-range")  # sums below the 1e-16 guards of the solvers
            return
        want.append(np.sum(P * M))
    mon.close("multi-hist", np.asarray(L), np.array(want), 1e-8 * max(np.abs(want)) + 1e-12, 1e-6, method)


@core.family(FAMILIES, 260, weight=2)
def mm(mon, rng, idx):
    n, m, a, b, M = instance(rng)
    M = np.maximum(M, 0)
    scale = float(M.max()) + 1e-3
    div = gen.pick(rng, ("kl", "l2", "KL", "L2"))
    d = div.lower()
    rm, (r1, r2) = penalties(mon, rng, scale, inf=False)
    if d == "l2":
        z = 5 / (a.sum() + b.sum())
        r1, r2 = r1 * z, r2 * z
        rm = (r1, r2)
    reg = 0.0 if rng.random() < 0.4 else scale * float(10 ** rng.uniform(-1.3, 0.5))
    c = rng.random((n, m)) + 0.1 if reg and rng.random() < 0.4 else None
    G0 = rng.random((n, m)) + 0.1 if rng.random() < 0.3 else None
    it = 3000
    mon.case(a, b, M, c, G0, n=n, m=m, reg=reg, r1=r1, r2=r2, div=div, nontrivial=n > 1 and m > 1)
    kw = dict(c=c, reg=reg, div=div, G0=G0, numItermax=it, stopThr=1e-14)
    a0, b0, M0 = a.copy(), b.copy(), M.copy()
    (P, log), _ = quiet(ot.unbalanced.mm_unbalanced, a, b, M, rm, log=True, **kw)
    mon.true("inputs-intact", np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(M, M0))
    mon.true("nonnegative", P.shape == (n, m) and np.isfinite(P).all() and (P >= 0).all())
    pb = Problem(a, b, M, reg, d if reg else None, c, d, r1, r2)
    steps = len(log["G"])
    vals = [pb.primal(log["G"][i]) for i in range(steps) if i < 60 or i % 40 == 0 or i == steps - 1]
    up = vals[-1]
    s = abs(vals[0]) + scale * P.sum() + pb.primal(np.zeros((n, m)))
    mon.le("mm-descent", float(np.max(np.diff(vals), initial=0.0)), 1e-9 * s, "the objective never increases")
    mon.close("mm-truthful", float(log["total_cost"]), up, 1e-8 * s, 1e-9, "total cost")
    mon.close("mm-linear", float(log["cost"]), float(np.sum(P * M)), 1e-9 * s, 1e-9, "linear cost")
    if steps < it:
        mon.event("converged")
        # multiplicative updates are sublinear at vanishing entries
        mon.le("mm-optimal", up - pb.lower(P), 2e-3 * s if not reg or d == "l2" else 1e-6 * s, d)
    else:
        mon.event("mm-budget-spent")
        mon.le("mm-optimal", up - pb.lower(P), 2e-2 * s, d)
    if idx % 4 == 0:
        for rc, want in (("linear", float(np.sum(P * M))), ("total", up)):
            v, _ = quiet(ot.unbalanced.mm_unbalanced2, a, b, M, rm, returnCost=rc, **kw)
            mon.close("mm-value-" + rc, float(v), want, 1e-8 * s, 1e-8)


def kl_pair(c):
    return (lambda G: np.sum(G * np.log(G / c + 1e-16) - G + c), lambda G: np.log(G / c + 1e-16))


@core.family(FAMILIES, 260, weight=2)
def lbfgs(mon, rng, idx):
    n, m, a, b, M = instance(rng)
    scale = float(np.abs(M).max()) + 1e-3
    D = gen.pick(rng, ("kl", "l2", "KL", "L2"))
    R = gen.pick(rng, ("kl", "l2", "entropy", "tuple", "KL"))
    d, rr = D.lower(), R.lower()
    rm, (r1, r2) = penalties(mon, rng, scale, inf=False)
    reg = 0.0 if rng.random() < 0.2 else scale * float(10 ** rng.uniform(-1.3, 0.5))
    if reg == 0 and d == "l2":
        M = np.maximum(M, 0)
    c = rng.random((n, m)) + 0.1 if rng.random() < 0.4 else None
    G0 = rng.random((n, m)) + 0.1 if rng.random() < 0.3 else None
    mon.case(a, b, M, c, G0, n=n, m=m, reg=reg, r1=r1, r2=r2, D=D, R=R, nontrivial=n > 1 and m > 1)
    pb = Problem(a, b, M, reg, {"tuple": "kl"}.get(rr, rr) if reg else None, c, d, r1, r2)
    reg_div = kl_pair(pb.c) if R == "tuple" else R
    kw = dict(c=c, reg_div=reg_div, regm_div=D, G0=G0, numItermax=3000, stopThr=1e-15)
    a0, b0, M0, G00 = a.copy(), b.copy(), M.copy(), None if G0 is None else G0.copy()
    (P, log), _ = quiet(ot.unbalanced.lbfgsb_unbalanced, a, b, M, reg, rm, log=True, **kw)
    mon.true("inputs-intact", np.array_equal(a, a0) and np.array_equal(b, b0) and np.array_equal(M, M0)
             and (G0 is None or np.array_equal(G0, G00)))
    mon.true("nonnegative", P.shape == (n, m) and np.isfinite(P).all() and (P >= -1e-12 * P.max()).all())
    P = np.maximum(P, 0)
    up = pb.primal(P)
    start = pb.primal(np.outer(a, b) if G0 is None else G0)
    s = abs(start) + scale * P.sum() + reg * pb.c.sum() + abs(up)
    mon.close("lbfgs-truthful", float(log["total_cost"]), up, 1e-8 * s, 1e-9, R + "/" + D)
    mon.close("lbfgs-linear", float(log["cost"]), float(np.sum(P * M)), 1e-9 * s, 1e-9)
    mon.le("lbfgs-descent", up - start, 1e-9 * s)
    if log["res"].nit < 2900:
        mon.le("lbfgs-optimal", up - pb.lower(P), (2e-3 if log["res"].success else 5e-2) * s, R + "/" + D)
    if idx % 4 == 0:
        for rc, want in (("linear", float(np.sum(P * M))), ("total", up)):
            v, _ = quiet(ot.unbalanced.lbfgsb_unbalanced2, a, b, M, reg, rm, returnCost=rc, **kw)
            mon.close("lbfgs-value-" + rc, float(v), want, 1e-8 * s, 1e-8)


@core.family(FAMILIES, 60)
def lbfgs_tv(mon, rng, idx):
    """Total variation penalties are not smooth: the reported values must still be the functional at
    the plan, the plan must not be worse than the start nor better than the linear program."""
    n, m, a, b, M = instance(rng, 6)
    M = np.maximum(M, 0)
    scale = float(M.max()) + 1e-3
    rm, (r1, r2) = penalties(mon, rng, scale, inf=False)
    mon.case(a, b, M, n=n, m=m, r1=r1, r2=r2, nontrivial=n > 1 and m > 1)
    pb = Problem(a, b, M, 0.0, None, None, "tv", r1, r2)
    (P, log), _ = quiet(ot.unbalanced.lbfgsb_unbalanced, a, b, M, 0, rm, regm_div="TV", log=True)
    up = pb.primal(P)
    s = a.sum() * r1 + b.sum() * r2 + scale
    mon.true("nonnegative", np.isfinite(P).all() and (P >= -1e-12 * P.max()).all())
    mon.close("lbfgs-truthful", float(log["total_cost"]), up, 1e-9 * s, 1e-9, "tv")
    # L-BFGS may end slightly above its start on a function with kinks
    mon.le("lbfgs-descent", up - pb.primal(np.outer(a, b)), 5e-2 * s)


def bary_lower(A, w, C, q, reg, rho):
    """KKT residual of q: sum_k w_k log v_k = 0 where v_k couples (a_k, q) softly on both sides."""
    fi = rho / (rho + reg)
    n, k = A.shape
    tot, lq = 0.0, np.log(q)
    for j in range(k):
        la = np.log(A[:, j])
        g = np.zeros(n)
        for _ in range(20000):
            f = fi * (la - logsumexp(g[None] - C, axis=1))
            new = fi * (lq - logsumexp(f[:, None] - C, axis=0))
            d = np.abs(new - g).max()
            g = new
            if d < 1e-13:
                break
        # d/dq of rho KL(m|q) summed: rho (1 - m/q) with m/q = exp(-g reg/rho)
        tot = tot + w[j] * np.exp(-g * reg / rho)
    return float(np.abs(tot - 1).max())


@core.family(FAMILIES, 70)
def barycenter(mon, rng, idx):
    n, k = int(rng.integers(2, 8)), int(rng.integers(1, 4))
    A = np.stack([measures(rng, n, n)[0] for _ in range(k)], 1)
    X = rng.normal(size=(n, 2))
    M = ot.dist(X, X)
    reg, rho = float(M.max() * 10 ** rng.uniform(-1.2, 0)), float(M.max() * 10 ** rng.uniform(-1, 1))
    w = None if rng.random() < 0.4 else rng.dirichlet(np.ones(k))
    tau = float(gen.pick(rng, (1000.0, 20.0)))
    mon.case(A, M, w, n=n, k=k, reg=reg, rho=rho, nontrivial=k > 1)
    ww = np.ones(k) / k if w is None else w
    qs = {}
    for me, kw in (("sinkhorn", {}), ("sinkhorn_stabilized", dict(tau=tau))):
        (q, log), txt = quiet(ot.unbalanced.barycenter_unbalanced, A, M, reg, rho, method=me, weights=w, numItermax=20000,
                              stopThr=1e-14, log=True, **kw)
        e = log["err"][-1]
        if "umerical" in txt or not e < 1e-12:
            mon.event("not-converged")
            continue
        mon.event("converged")
        qs[me] = q
        mon.true("nonnegative", (q >= 0).all())
        mon.le("bary-kkt", bary_lower(A, ww, M / reg, q, reg, rho), 1e-6, me)
    if len(qs) == 2:
        mon.close("bary-agree", qs["sinkhorn_stabilized"], qs["sinkhorn"], 1e-8 * qs["sinkhorn"].max(), 1e-6)


def w1d(x, y, u, v, p):
    """W_p^p on the line of equal-mass weights by the monotone plan."""
    G = oracles.monotone_plan(x, y, u / u.sum(), v / v.sum())
    return float(u.sum() * np.sum(G * np.abs(x[:, None] - y[None]) ** p))


@core.family(FAMILIES, 120, cpu_limit=90)
def uot1d(mon, rng, idx):
    import torch
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    L = int(rng.integers(0, 4))
    p = gen.pick(rng, (1, 2, 2, 3))
    sh = lambda k: (k,) if L == 0 else (k, L)
    x, y = rng.normal(size=sh(n)), rng.normal(size=sh(m)) + 0.3
    rm, (r1, r2) = penalties(mon, rng, 1.0)
    # the potentials are gradients: where cumulated weights tie they need not exist
    generic = rng.random() < 0.7
    kinds = ("dirichlet",) if generic else ("uniform", "dyadic", "geometric")
    a, b = measures(rng, n, m, kinds)
    per = L > 0 and rng.random() < 0.5
    if per:
        a = np.stack([measures(rng, n, m, kinds)[0] for _ in range(L)], 1)
        b = np.stack([measures(rng, n, m, kinds)[1] for _ in range(L)], 1)
    if r1 == r2 == INF:
        b = b * (a.sum(0) / b.sum(0))
    none = not generic and rng.random() < 0.6
    if none:
        a, b = np.ones(n) / n, np.ones(m) / m
    sort = rng.random() < 0.7
    if not sort:
        x, y = np.sort(x, 0), np.sort(y, 0)
    it = int(gen.pick(rng, (10, 400)))
    rc = gen.pick(rng, ("linear", "total"))
    mon.case(x, y, a, b, n=n, m=m, L=L, p=p, r1=r1, r2=r2, it=it, sort=sort, rc=rc, per=per, none=none)
    T = torch.tensor
    u, v, loss, log = ot.unbalanced.uot_1d(
        T(x), T(y), rm, None if none else T(a), None if none else T(b), p=p, require_sort=sort, numItermax=it, returnCost=rc, log=True)
    bc = lambda z: np.repeat(z[:, None], L, 1) if (L and z.ndim == 1) else z
    A, B, X, Y = bc(a), bc(b), x, y
    U, V, F, G = (np.asarray(t) for t in (u, v, log["f"], log["g"]))
    tot, lin, loss = (np.atleast_1d(np.asarray(t)) for t in (log["total_cost"], log["linear_cost"], loss))
    mon.true("uot1d-shapes", U.shape == A.shape and V.shape == B.shape and F.shape == A.shape and loss.shape == (max(L, 1),))
    mon.close("uot1d-return", loss, tot if rc == "total" else lin, 0, 1e-12)
    for s in range(max(L, 1)):
        z = (lambda q: q) if L == 0 else (lambda q: q[:, s])
        xs, ys, as_, bs, us, vs, f, g = (z(q) for q in (X, Y, A, B, U, V, F, G))
        C = np.abs(xs[:, None] - ys[None]) ** p
        sc = float(C.max()) + 1.0
        mass = max(as_.sum(), bs.sum())
        mon.le("uot1d-equal-mass", abs(us.sum() - vs.sum()), 1e-8 * mass)
        # very small penalties underflow the reweighted measures: cumulated weights tie again
        judged = generic and C.max() < 12 * min(r1, r2)
        if judged:
            mon.le("uot1d-dual-feasible", float((f[:, None] + g[None] - C).max()), 1e-9 * sc, "p=%s" % p)
        if r1 != INF:
            mon.close("uot1d-reweighted", us, as_ * np.exp(-f / r1), 1e-8 * mass, 1e-6, "source")
        else:
            mon.close("uot1d-infinite", us, as_, 1e-9 * mass, 1e-9)
        if r2 == INF:
            mon.close("uot1d-infinite", vs, bs, 1e-9 * mass, 1e-9)
        elif r1 == INF or True:
            mon.close("uot1d-reweighted", vs, bs * np.exp(-g / r2) * (us.sum() / max((bs * np.exp(-g / r2)).sum(), 1e-300)), 1e-8 * mass, 1e-6)
        wl = w1d(xs, ys, us, vs, p)
        pb = Problem(as_, bs, C, 0.0, None, None, "kl", r1, r2)
        up = wl + pb.pen(us, as_, r1) + pb.pen(vs, bs, r2)
        mon.close("uot1d-linear", lin[s], wl, 1e-7 * sc * mass, 1e-7)
        mon.close("uot1d-cost", tot[s], up, 1e-7 * sc * mass, 1e-7)
        if not judged:
            continue
        lo = pb.dual(f, g)[0]
        mon.le("uot1d-weak-duality", lo - up, 1e-7 * sc * mass)
        if it == 400:
            mon.le("uot1d-gap", up - lo, 0.02 * (sc + max([q for q in (r1, r2) if q < INF], default=0)) * mass, "p=%s" % p)


@core.family(FAMILIES, 40, cpu_limit=90)
def sliced(mon, rng, idx):
    import torch
    n, m, d = int(rng.integers(2, 7)), int(rng.integers(2, 7)), int(rng.integers(1, 4))
    p = gen.pick(rng, (1, 2))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, d)) + 0.3
    rm, (r1, r2) = penalties(mon, rng, 1.0)
    a, b = measures(rng, n, m, ("dirichlet",))
    if r1 == r2 == INF:
        b = b * a.sum() / b.sum()
    k = int(rng.integers(1, 8))
    it = int(gen.pick(rng, (5, 30)))
    th = rng.normal(size=(d, k))
    th /= np.linalg.norm(th, axis=0, keepdims=True)
    given = rng.random() < 0.6
    mon.case(X, Y, a, b, th, n=n, m=m, p=p, r1=r1, r2=r2, k=k, it=it)
    T = torch.tensor
    kw = dict(projections=T(th)) if given else dict(n_projections=k, seed=int(rng.integers(1000)))
    v, log = ot.unbalanced.sliced_unbalanced_ot(T(X), T(Y), rm, T(a), T(b), p=p, numItermax=it, log=True, **kw)
    P = np.asarray(log["projections"])
    mon.true("sliced-projections", P.shape == (d, k) and np.allclose(np.linalg.norm(P, axis=0), 1))
    w = np.mean([float(ot.unbalanced.uot_1d(T(X @ P[:, j]), T(Y @ P[:, j]), rm, T(a), T(b), p=p, numItermax=it, returnCost="total")[2])
                 for j in range(k)])
    mon.close("sliced-mean", float(v), w, 1e-9, 1e-9)
    au, bu, val, lg = ot.unbalanced.unbalanced_sliced_ot(T(X), T(Y), rm, T(a), T(b), p=p, numItermax=it, log=True, **kw)
    au, bu, P2 = np.asarray(au), np.asarray(bu), np.asarray(lg["projections"])
    mon.true("sliced-projections", np.array_equal(P, P2), "same seed, same projections")
    mass = max(a.sum(), b.sum())
    mon.le("usot-equal-mass", abs(au.sum() - bu.sum()), 1e-8 * mass)
    pb = Problem(a, b, np.zeros((n, m)), 0.0, None, None, "kl", r1, r2)
    ws = np.mean([w1d(X @ P[:, j], Y @ P[:, j], au, bu, p) for j in range(k)])
    mon.close("usot-cost", float(val), ws + pb.pen(au, a, r1) + pb.pen(bu, b, r2), 1e-8 * mass, 1e-7)
    mon.close("usot-linear", float(lg["sot_loss"]), ws, 1e-8 * mass, 1e-7)
    if r1 == INF:
        mon.close("usot-infinite", au, a, 1e-9, 1e-9)
    if r2 == INF:
        mon.close("usot-infinite", bu, b, 1e-9, 1e-9)
    # never worse than moving nothing apart: the value is at most that of the best constant scaling (f = g = 0 start)
    if k == 1 and it == 30:
        one = ot.unbalanced.uot_1d(T(X @ P[:, 0]), T(Y @ P[:, 0]), rm, T(a), T(b), p=p, numItermax=it, returnCost="total")
        mon.close("usot-single-slice", float(val), float(one[2]), 1e-8 * mass, 1e-7)
