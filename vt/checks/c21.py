"""L2-UOT regularisation path.  Every breakpoint and random interpolated penalties are decided by the
KKT conditions of the penalised problem, evaluated from the marginals of the returned plan (sign,
dual slack, complementarity; for the semi-relaxed path also the exact column constraint), the start
by the closed form of the critical penalty, the end by the requested one, monotonicity along the
list, and truncation (itmax) by the same KKT conditions on whatever is returned.  Building blocks
(Lasso recast, rank-one inverse updates) against dense linear algebra."""

import contextlib
import io
import warnings

import numpy as np

import ot
from ot import regpath as rp
from vt import core, gen

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("kkt-sign", "kkt-slack", "kkt-complementarity", "columns", "monotone", "start", "end", "interpolated", "recast", "schur", "plan-at-breakpoint")
REQUIRED_EVENTS = ("full", "semi", "removal", "long-path", "zero-weights", "unequal-mass", "tied-costs", "above-start", "truncated", "breakpoints")
ASSUMPTIONS = ["costs are strictly positive (a null cost has no finite critical penalty, the Lasso recast of the paper assumes c > 0)"]


def run(a, b, C, reg, semi, **k):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), np.errstate(all="ignore"), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = rp.regularization_path(a, b, C, reg=reg, semi_relaxed=semi, **k)
    return r, out.getvalue() + "".join(str(x.message) for x in w)


def kkt(mon, a, b, C, t, g, semi, what, tol=1e-7):
    T = np.asarray(t).reshape(C.shape)
    if not mon.finite("finite", T, what):
        return
    s = max(a.sum(), b.sum(), g * C.max() if np.isfinite(g) else 1.0, 1e-300)
    mon.le("kkt-sign", -float(T.min()), tol * s, f"{what}: negative entry at gamma={g}")
    r, q = T.sum(1) - a, T.sum(0) - b
    if semi:
        mon.le("columns", float(np.abs(q).max()), tol * s, f"{what}: column marginal at gamma={g}")
        S = g * C + r[:, None]
        S = S - S.min(0)
    else:
        S = g * C + r[:, None] + q
        mon.le("kkt-slack", -float(S.min()), tol * s, f"{what}: dual slack at gamma={g}")
    mon.le("kkt-complementarity", float(np.sum(np.abs(S * T))), tol * s * max(1.0, a.sum(), b.sum()), f"{what}: complementarity at gamma={g} (subopt)")


def draw(mon, rng, n, m, tied):
    if tied:
        C = rng.integers(1, 5, (n, m)).astype(float) if rng.random() < 0.5 else (rng.permutation(n)[:, None] - rng.permutation(m)[None] + 0.0 - n - m) ** 2
        mon.event("tied-costs")
    else:
        x, y = rng.normal(size=(n, 2)) * rng.uniform(0.3, 2), rng.normal(size=(m, 2)) + rng.uniform(0, 3)
        C = ot.dist(x, y, metric=gen.pick(rng, ("sqeuclidean", "euclidean"))) if rng.random() < 0.7 else rng.random((n, m)) + 0.01
    C = C / C.max() * float(10 ** rng.uniform(-1, 1))
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    if (a == 0).any() or (b == 0).any():
        mon.event("zero-weights")
    if rng.random() < 0.4:
        a = a * rng.uniform(0.3, 3)
        b = b * rng.uniform(0.3, 3)
        mon.event("unequal-mass")
    return C, a, b


def path(mon, rng, semi, tied):
    n, m = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    C, a, b = draw(mon, rng, n, m, tied)
    if semi and tied:    # ties everywhere but at the minimum of a column (see semi_tied_minimum)
        C[C.argmin(0), np.arange(m)] *= 0.75
    top = float(((a[:, None] + b) / C).max())
    reg = top * float(10 ** rng.uniform(-6, 0.2))
    mon.event("semi" if semi else "full")
    mon.case(dict(a=a, b=b, C=C, reg=reg, semi=semi))
    (t, tl, gl), txt = run(a, b, C, reg, semi)
    gl = [float(g) for g in gl]
    if "maximum iteration" in txt:
        mon.true("terminates", False, f"the path did not end within itmax=50000 iterations ({len(gl)} breakpoints)")
        return
    mon.event("breakpoints", len(gl))
    if len(gl) > 15:
        mon.event("long-path")
    mon.true("plan-at-breakpoint", len(gl) == len(tl) and np.array_equal(t, tl[-1]), "the returned plan is not the last of the path")
    mon.le("monotone", max([gl[k + 1] - gl[k] * (1 + 1e-9) for k in range(len(gl) - 1)] + [0.0]), 0, f"penalties {gl}")
    mon.close("end", gl[-1], reg, atol=0, rtol=1e-12, msg="last penalty")
    if not semi:
        if reg < top:
            mon.close("start", gl[0], top, atol=0, rtol=1e-9, msg="critical penalty")
        else:
            mon.event("above-start")
        mon.true("start", not np.asarray(tl[0]).any(), "the path does not start at the null plan")
    nz = [int((np.asarray(x) > 1e-12).sum()) for x in tl]
    if any(y < x for x, y in zip(nz, nz[1:])):
        mon.event("removal")
    for k, (g, x) in enumerate(zip(gl, tl)):
        kkt(mon, a, b, C, x, g, semi, f"breakpoint {k} of {len(gl)}")
    lo, hi = np.log(max(reg * 0.999999, 1e-300)), np.log(max(gl[0], reg) * 1.5)
    for g in list(np.exp(rng.uniform(lo, hi, 6))) + [float(gen.pick(rng, gl))]:
        g = max(float(g), reg)
        P = rp.compute_transport_plan(g, gl, tl)
        mon.true("interpolated", np.shape(P) == np.shape(t), "shape of the interpolated plan")
        kkt(mon, a, b, C, P, g, semi, "interpolated plan")
        if g in gl:
            mon.close("plan-at-breakpoint", P, tl[len(gl) - 1 - gl[::-1].index(g)], atol=1e-12 * (1 + a.sum() + b.sum()), rtol=0, msg="plan at a breakpoint")
    P = rp.compute_transport_plan(gl[-1] * 0.5, gl, tl)
    mon.true("interpolated", np.array_equal(P, tl[-1]), "below the last penalty the last plan is returned")


@core.family(FAMILIES, 300, weight=2)
def full_path(mon, rng, idx):
    path(mon, rng, False, False)


@core.family(FAMILIES, 300, weight=2)
def semi_path(mon, rng, idx):
    path(mon, rng, True, False)


@core.family(FAMILIES, 150, weight=2)
def tied_path(mon, rng, idx):
    path(mon, rng, bool(idx % 2), True)


@core.family(FAMILIES, 1, 1)
def semi_tied_minimum(mon, rng, idx):
    """Two rows equally cheap for a column: the starting active set is not optimal (known finding)."""
    a, b, C = np.array([0.5, 0.5]), np.array([1.0]), np.array([[1.0], [1.0]])
    (t, tl, gl), _ = run(a, b, C, 0.1, True)
    kkt(mon, a, b, C, t, 0.1, True, "semi-relaxed path, C=[[1],[1]], a=[.5,.5], b=[1]: all the mass on the first row")


@core.family(FAMILIES, 80)
def truncated(mon, rng, idx):
    n, m = int(rng.integers(2, 8)), int(rng.integers(2, 8))
    C, a, b = draw(mon, rng, n, m, False)
    semi = bool(idx % 2)
    reg = float(((a[:, None] + b) / C).max()) * 1e-5
    it = int(rng.integers(2, 8))
    mon.case(dict(a=a, b=b, C=C, reg=reg, semi=semi, itmax=it))
    (t, tl, gl), txt = run(a, b, C, reg, semi, itmax=it)
    if len(gl) < len(run(a, b, C, reg, semi)[0][2]):
        mon.event("truncated")
    for g, x in zip(gl, tl):
        kkt(mon, a, b, C, x, float(g), semi, f"itmax={it}")


@core.family(FAMILIES, 150)
def pieces(mon, rng, idx):
    n, m = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    C, a, b = draw(mon, rng, n, m, False)
    T = rng.random((n, m))
    H, y, c = rp.recast_ot_as_lasso(a, b, C)
    mon.close("recast", H.dot(T.ravel()), np.concatenate((T.sum(1), T.sum(0))), atol=1e-12 * n * m, rtol=0, msg="H t is not the pair of marginals")
    mon.close("recast", y, np.concatenate((a, b)), atol=0, rtol=0, msg="y")
    mon.close("recast", c @ T.ravel(), np.sum(C * T), atol=1e-12 * (1 + C.sum()), rtol=0, msg="c")
    Hr, Hc, c = rp.recast_semi_relaxed_as_lasso(a, b, C)
    mon.close("recast", Hr.dot(T.ravel()), T.sum(1), atol=1e-12 * n * m, rtol=0, msg="Hr t")
    mon.close("recast", Hc.dot(T.ravel()), T.sum(0), atol=1e-12 * n * m, rtol=0, msg="Hc t")
    mon.close("recast", c @ T.ravel(), np.sum(C * T), atol=1e-12 * (1 + C.sum()), rtol=0, msg="c")
    k = int(rng.integers(2, 7))
    A = rng.normal(size=(k, k + 3))
    A = A @ A.T + 0.1 * np.eye(k)
    inv = np.linalg.inv(A[:-1, :-1])
    sc = float(np.abs(np.linalg.inv(A)).max() + np.abs(inv).max()) ** 2 + 1
    got = rp.complement_schur(inv, A[:-1, -1:], A[-1, -1], -1)
    mon.close("schur", got, np.linalg.inv(A), atol=1e-9 * sc, rtol=0, msg="inverse after adding a column")
    p = int(rng.integers(k))
    keep = [i for i in range(k) if i != p]
    got = rp.complement_schur(np.linalg.inv(A), None, 1.0, p)
    mon.close("schur", got, np.linalg.inv(A[np.ix_(keep, keep)]), atol=1e-9 * sc, rtol=0, msg="inverse after removing a column")
