"""Conditional gradient.  The user's f and df are wrapped: every point at which the solver asks for
a gradient is an iterate, so the monitors see the whole history: each iterate must lie in the
constraint set, the documented objective (evaluated by the check) must not increase along it, and
the logged losses must be that objective.  For convex f the Frank-Wolfe gap of the final plan,
computed with an independent linear program, must vanish with the budget (closed forms for the
semi-relaxed case, entropic optimality conditions for the generalised one).  Exact line searches
are compared with the polynomial on a grid and at its stationary points."""

import warnings

import numpy as np
import scipy.sparse as sp
from scipy.optimize import linprog

import ot
from vt import core, gen, oracles

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("iterate-feasible", "descent", "loss-log", "final-feasible", "fw-gap", "semirelaxed-optimal",
            "partial-mass", "gcg-optimal", "linesearch-minimum", "armijo-decrease")
REQUIRED_EVENTS = ("nonconvex", "quadratic-search", "budget-of-one")


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            return f(*a, **k)


def regulariser(mon, rng, n, m, positive=False):
    """(f, df, convex, curvature bound) of a smooth function of the plan."""
    k = int(rng.integers(5 if not positive else 4))
    T = rng.random((n, m)) / (n * m)
    if k == 0:
        return (lambda G: 0.5 * np.sum(G ** 2)), (lambda G: G), True, 1.0
    if k == 1:
        return (lambda G: 0.5 * np.sum((G - T) ** 2)), (lambda G: G - T), True, 1.0
    if k == 2:
        A, B = rng.normal(size=(3, n)), rng.normal(size=(m, 2))
        Y = rng.normal(size=(3, 2))
        L = np.linalg.norm(A, 2) ** 2 * np.linalg.norm(B, 2) ** 2
        return (lambda G: 0.5 * np.sum((A @ G @ B - Y) ** 2)), (lambda G: A.T @ (A @ G @ B - Y) @ B.T), True, L
    if k == 3:
        w = rng.normal(size=(n, m))
        L = float(np.sum(w ** 2))
        return ((lambda G: float(np.log1p(np.exp(np.sum(w * G))))),
                (lambda G: w / (1 + np.exp(-np.sum(w * G)))), True, L)
    mon.event("nonconvex")
    return (lambda G: -0.5 * np.sum(G ** 2)), (lambda G: -G), False, 1.0


class History:
    def __init__(self, f, df):
        self._f, self._df, self.points = f, df, []

    def f(self, G):
        return self._f(G)

    def df(self, G):
        self.points.append(np.array(G))
        return self._df(G)


def judge(mon, hist, G, log, obj, feasible, scale):
    pts = hist.points + [np.asarray(G)]
    vals = [obj(P) for P in pts]
    for P in pts[:: max(1, len(pts) // 40)]:
        feasible("iterate-feasible", P)
    feasible("final-feasible", pts[-1])
    mon.le("descent", float(np.max(np.diff(vals), initial=-np.inf)), 1e-10 * scale, "the objective never increases")
    L = np.array([float(v) for v in log["loss"]])
    ok = mon.true("loss-log", len(L) == len(vals), "%d losses for %d iterates" % (len(L), len(vals)))
    if ok is not False and len(L) == len(vals):
        mon.close("loss-log", L, np.array(vals), 1e-9 * scale, 1e-9)
    mon.event("iterates", len(pts))
    return vals


def problem(rng, top=8):
    n, m = int(rng.integers(1, top)), int(rng.integers(1, top))
    M = gen.cost(rng, n, m, gen.pick(rng, ("sqeuclid", "euclid", "random", "ties", "signed", "constant")))
    return n, m, M, float(np.abs(M).max()) + 1e-3


def budget(mon, rng):
    k = rng.random()
    if k < 0.1:
        mon.event("budget-of-one")
        return dict(numItermax=1)
    if k < 0.3:
        return dict(numItermax=int(rng.integers(2, 12)))
    if k < 0.6:
        return {}
    return dict(numItermax=300, stopThr=0.0, stopThr2=0.0)


@core.family(FAMILIES, 300, weight=2)
def cg(mon, rng, idx):
    n, m, M, sc = problem(rng)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    f, df, convex, L = regulariser(mon, rng, n, m)
    reg = float(sc * 10 ** rng.uniform(-1.5, 1))
    kw = budget(mon, rng)
    G0 = None
    if rng.random() < 0.4:
        G0 = 0.5 * np.outer(a, b) + 0.5 * oracles.monotone_plan(rng.normal(size=n), rng.normal(size=m), a, b)
    scalar = rng.random() < 0.1
    if scalar:
        M = 0.0
    mon.case(a, b, np.asarray(M), n=n, m=m, reg=reg, kw=str(kw), convex=convex, g0=G0 is not None, nontrivial=n > 1 and m > 1)
    h = History(f, df)
    c0 = None if G0 is None else G0.copy()
    G, log = quiet(ot.optim.cg, a, b, M, reg, h.f, h.df, G0=G0, log=True, **kw)
    mon.true("inputs-intact", G0 is None or np.array_equal(c0, G0))
    obj = lambda P: float(np.sum(M * P) + reg * f(P))
    s = sc + reg * max(1.0, L, abs(f(np.outer(a, b))))

    def feasible(name, P):
        mon.le(name, max(oracles.marg_err(P, a, b), float(-P.min())), 1e-9)

    judge(mon, h, G, log, obj, feasible, s)
    if convex and kw.get("numItermax") == 300:
        D = M + reg * df(G)
        lp, _ = oracles.lp_transport(a, b, np.asarray(D) + np.zeros((n, m)))
        if lp is None:
            raise core.Skip()
        mon.le("fw-gap", float(np.sum(D * G)) - lp, 0.15 * s, "optimality gap after 300 steps")
        # Frank-Wolfe rate on the objective: 2 C / (k + 2), C <= reg L diam^2 = 2 reg L
        best = obj(G)
        for P in h.points[::30]:
            mon.le("not-worse-than-history", best - obj(P), 1e-10 * s)


@core.family(FAMILIES, 300)
def semirelaxed(mon, rng, idx):
    n, m, M, sc = problem(rng)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    f, df, convex, L = regulariser(mon, rng, n, m)
    reg = float(sc * 10 ** rng.uniform(-1.5, 1))
    kw = budget(mon, rng)
    G0 = None
    if rng.random() < 0.4:
        G0 = a[:, None] * rng.dirichlet(np.ones(m), size=n)
    mon.case(a, b, M, n=n, m=m, reg=reg, kw=str(kw), convex=convex, nontrivial=n > 1 and m > 1)
    h = History(f, df)
    c0 = None if G0 is None else G0.copy()
    G, log = quiet(ot.optim.semirelaxed_cg, a, b, M, reg, h.f, h.df, G0=G0, log=True, **kw)
    mon.true("inputs-intact", G0 is None or np.array_equal(c0, G0))
    obj = lambda P: float(np.sum(M * P) + reg * f(P))
    s = sc + reg * max(1.0, L, abs(f(np.outer(a, b))))

    def feasible(name, P):
        mon.le(name, max(float(np.abs(P.sum(1) - a).max()), float(-P.min())), 1e-12)

    judge(mon, h, G, log, obj, feasible, s)
    if convex and kw.get("numItermax") == 300:
        D = M + reg * df(G)
        mon.le("semirelaxed-optimal", float(np.sum((D - D.min(1, keepdims=True)) * G)), 0.1 * s, "Frank-Wolfe gap")


def lp_mass(a, b, D, mass):
    n, k = D.shape
    A = sp.vstack([sp.kron(sp.eye(n), np.ones((1, k))), sp.kron(np.ones((1, n)), sp.eye(k))]).tocsr()
    r = linprog(D.ravel(), A_ub=A, b_ub=np.r_[a, b], bounds=(0, None), method="highs", A_eq=np.ones((1, n * k)), b_eq=[mass])
    if r.x is None:
        raise core.Skip()
    return float(r.fun)


@core.family(FAMILIES, 250)
def partial(mon, rng, idx):
    n, m, M, sc = problem(rng)
    kinds = ("uniform", "dirichlet", "dyadic")
    a, b = gen.weights(rng, n, gen.pick(rng, kinds)), gen.weights(rng, m, gen.pick(rng, kinds))
    mass = float(rng.uniform(0.05, 1))
    nd = int(rng.integers(1, 3))
    ae, be = np.r_[a, np.full(nd, (1 - mass) / nd)], np.r_[b, np.full(nd, (1 - mass) / nd)]
    f, df, convex, L = regulariser(mon, rng, n, m)
    reg = float(sc * 10 ** rng.uniform(-1.5, 1))
    kw = dict(numItermax=int(gen.pick(rng, (1, 5, 300, 1000))))
    if kw["numItermax"] == 1000:
        kw.update(stopThr=0.0, stopThr2=0.0)
        kw["numItermax"] = 300
    if rng.random() < 0.15:
        M = np.zeros((n, m))
    mon.case(a, b, M, n=n, m=m, reg=reg, mass=mass, nd=nd, kw=str(kw), convex=convex, nontrivial=n > 1 and m > 1)
    h = History(f, df)

    def search(cost, G, dG, Mi, cost_G, df_G=None, **kwargs):
        return ot.optim.line_search_armijo(cost, G, dG, Mi, cost_G, alpha_min=0.0, alpha_max=1.0)

    G, log = quiet(ot.optim.partial_cg, a, b, ae, be, M, reg, h.f, h.df, G0=np.outer(a, b) * mass, line_search=search,
                   log=True, warn=False, **kw)
    obj = lambda P: float(np.sum(M * P) + reg * f(P))
    s = sc + reg * max(1.0, L, abs(f(np.outer(a, b))))

    def feasible(name, P):
        mon.le(name, max(float((P.sum(1) - a).max()), float((P.sum(0) - b).max()), float(-P.min())), 1e-9)
        mon.le("partial-mass", abs(float(P.sum()) - mass), 1e-8)

    judge(mon, h, G, log, obj, feasible, s)
    if convex and "stopThr" in kw:
        D = M + reg * df(G)
        mon.le("fw-gap", float(np.sum(D * G)) - lp_mass(a, b, D, mass), 0.15 * s, "optimality gap after 300 steps")


@core.family(FAMILIES, 200, weight=2)
def generalised(mon, rng, idx):
    n, m, M, sc = problem(rng)
    a, b = gen.weights(rng, n, "dirichlet"), gen.weights(rng, m, gen.pick(rng, ("uniform", "dyadic")))
    f, df, convex, L = regulariser(mon, rng, n, m, positive=True)
    r1 = float(sc * 10 ** rng.uniform(-1, 0.5))
    r2 = float(sc * 10 ** rng.uniform(-1.5, 0.5)) / max(1.0, L)
    its = int(gen.pick(rng, (1, 5, 200)))
    kw = dict(numItermax=its, numInnerItermax=3000, stopThr=1e-13, stopThr2=1e-15)
    mon.case(a, b, M, n=n, m=m, r1=r1, r2=r2, its=its, nontrivial=n > 1 and m > 1)
    h = History(f, df)
    G, log = quiet(ot.optim.gcg, a, b, M, r1, r2, h.f, h.df, log=True, **kw)
    obj = lambda P: float(np.sum(M * P) + r1 * np.sum(P[P > 0] * np.log(P[P > 0])) + r2 * f(P))
    s = sc + r2 * max(1.0, L) + r1 * (1 + np.log(n * m))

    def feasible(name, P):
        mon.le(name, max(oracles.marg_err(P, a, b), float(-P.min())), 1e-6)

    judge(mon, h, G, log, obj, feasible, s)
    if its == 200:
        # the minimiser is the entropic plan of its own linearised cost
        D = M + r2 * df(G)
        f0, g0 = np.zeros(n), np.zeros(m)
        for _ in range(3000):
            g1 = r1 * (np.log(b) - np.log(np.exp((f0[:, None] - D) / r1).sum(0)))
            f0 = r1 * (np.log(a) - np.log(np.exp((g1[None] - D) / r1).sum(1)))
            if np.abs(g1 - g0).max() < 1e-13 * s:
                break
            g0 = g1
        S = np.exp((f0[:, None] + g1[None] - D) / r1)
        gap = float(np.sum(D * (G - S)) + r1 * (np.sum(G[G > 0] * np.log(G[G > 0])) - np.sum(S[S > 0] * np.log(S[S > 0]))))
        mon.le("gcg-optimal", gap, 1e-4 * s, "generalised Frank-Wolfe gap")


@core.family(FAMILIES, 2000, weight=0.3)
def quadratic(mon, rng, idx):
    k = int(rng.integers(7))
    a, b = float(rng.normal()), float(rng.normal())
    if k == 1:
        a = 0.0
    elif k == 2:
        b = 0.0
    elif k == 3:
        a, b = float(rng.integers(-2, 3)), float(rng.integers(-2, 3))
    elif k == 4:
        b = -a
    elif k == 5:
        a *= 1e-12
    elif k == 6:
        b *= 1e-9
    mon.case(a=a, b=b, nontrivial=True)
    mon.event("quadratic-search")
    x = ot.optim.solve_1d_linesearch_quad(a, b)
    mon.true("linesearch-range", 0 <= x <= 1)
    c = [0.0, 1.0] + ([min(1, max(0, -b / (2 * a)))] if a else []) + list(np.linspace(0, 1, 21))
    mon.le("linesearch-minimum", a * x * x + b * x - min(a * t * t + b * t for t in c), 1e-15 * (abs(a) + abs(b)))


@core.family(FAMILIES, 500, weight=0.4)
def armijo(mon, rng, idx):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    A = rng.normal(size=(n, m))
    w = 10.0 ** rng.uniform(-2, 3)
    F = gen.pick(rng, (lambda X: float(w * np.sum((X - A) ** 2)), lambda X: float(np.sum(np.cosh(np.clip(X - A, -300, 300)))),
                       lambda X: float(np.sum(np.sin(3 * X) + 0.1 * X ** 2))))
    x, p = rng.normal(size=(n, m)), rng.normal(size=(n, m)) * 10 ** rng.uniform(-1, 1)
    g = oracles.fd_grad(F, x)
    if np.sum(p * g) > 0 and rng.random() < 0.8:
        p = -p
    lo = float(gen.pick(rng, (0.0, 0.0, 0.05)))
    hi = gen.pick(rng, (None, 1.0, 0.5))
    old = F(x) if lo else gen.pick(rng, (None, F(x)))
    mon.case(x, p, n=n, m=m, lo=lo, hi=hi, slope=float(np.sum(p * g)), nontrivial=True)
    calls = []

    def f(X):
        calls.append(np.array(X))
        return F(X)

    alpha, fc, val = quiet(ot.optim.line_search_armijo, f, x, p, g, old, alpha_min=lo, alpha_max=hi)
    alpha, val = float(alpha), float(val)
    s = abs(F(x)) + abs(val) + 1e-12
    mon.true("armijo-calls", fc == len(calls))
    mon.true("armijo-range", alpha == 0 or lo <= alpha <= (np.inf if hi is None else hi), "step %g" % alpha)
    mon.close("armijo-value", val, F(x + alpha * p), 1e-10 * s, 1e-10)
    if alpha > lo and np.sum(p * g) < 0:
        mon.le("armijo-decrease", val - F(x) - 1e-4 * alpha * float(np.sum(p * g)) * (1 - 1e-3), 1e-7 * s, "sufficient decrease")
    for X in calls:
        t = np.sum((X - x) * p) / np.sum(p * p)
        mon.true("armijo-inside", t >= lo - 1e-9 and (hi is None or t <= hi + 1e-9) or abs(t) < 1e-9)
