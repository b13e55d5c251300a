"""OT on the circle.  Oracles: the exact LP on the geodesic cost (small cases), and an
independent minimisation over the cutting shift of the line problem (convex piecewise cost;
for equal uniform weights a minimum over cyclic assignments; for p=1 the weighted level
median).  Rotation / reflection / permutation invariance, symmetry, batch independence and
the semidiscrete and linear circular formulas are monitored.  Non-trivial: at least two
atoms; distinct by array hash."""

import numpy as np

import ot
from ot.lp import solver_circle as sc
from vt import core, gen, oracles

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("vs-LP", "rotation", "semidiscrete-value", "w1-vs-LP")


def sample(rng, n):
    k = gen.pick(rng, ("uniform", "arc", "wrap", "grid", "dupes", "opposite"))
    if k == "uniform":
        x = rng.random(n)
    elif k == "arc":
        x = (rng.random() + 0.2 * rng.random(n)) % 1
    elif k == "wrap":
        x = (0.98 + 0.05 * rng.random(n)) % 1
    elif k == "grid":
        x = rng.integers(0, 8, size=n) / 8.0
    elif k == "dupes":
        x = rng.random(max(1, n // 2))[rng.integers(0, max(1, n // 2), size=n)]
    else:
        x = (rng.random() + 0.5 * rng.integers(0, 2, size=n)) % 1
    return x


def geo(x, y):
    d = np.abs(x[:, None] - y[None]) % 1
    return np.minimum(d, 1 - d)


def exact(x, y, a, b, p):
    v, _ = oracles.lp_transport(a, b * (a.sum() / b.sum()), geo(x, y) ** p)
    return v


def dims(rng, hi):
    n, m = int(rng.integers(1, hi)), int(rng.integers(1, hi))
    if rng.random() < 0.3:
        m = n
    return n, m


@core.family(FAMILIES, 900)
def circle(mon, rng, idx):
    n, m = dims(rng, 10)
    k = int(rng.integers(1, 4))
    x = np.stack([sample(rng, n) for _ in range(k)], 1)
    y = np.stack([sample(rng, m) for _ in range(k)], 1)
    wk = gen.pick(rng, ("none", "1d", "2d"))
    a = np.stack([gen.weights(rng, n, positive=True) for _ in range(k)], 1)
    b = np.stack([gen.weights(rng, m, positive=True) for _ in range(k)], 1)
    if wk == "none":
        a, b = np.full((n, k), 1 / n), np.full((m, k), 1 / m)
    if wk == "1d":
        a, b = np.repeat(a[:, :1], k, 1), np.repeat(b[:, :1], k, 1)
    aa = None if wk == "none" else a[:, 0] if wk == "1d" else a
    bb = None if wk == "none" else b[:, 0] if wk == "1d" else b
    p = float(gen.pick(rng, (1, 2, 2, 3, 1.5)))
    mon.case(x, y, a, b, n=n, m=m, k=k, p=p, weights=wk, nontrivial=n + m > 2)
    ref = np.array([exact(x[:, c], y[:, c], a[:, c], b[:, c], p) for c in range(k)])
    # the solver locates the cut up to eps (a parameter); the cost is Lipschitz there
    eps = float(gen.pick(rng, (1e-6, 1e-9)))
    tol = 1e-9 + 3 * p * eps

    def wc(*args, p):
        return ot.wasserstein_circle(*args, p=p, eps=eps)

    w = np.asarray(wc(x, y, aa, bb, p=p))
    mon.close("vs-LP", w, ref, tol)
    w2, log = sc.binary_search_circle(x, y, aa, bb, p=p, eps=eps, log=True)
    mon.close("log-call", np.asarray(w2), w, 1e-12)
    mon.close("symmetric", np.asarray(wc(y, x, bb, aa, p=p)), ref, tol)
    s = float(rng.normal() * 2)
    mon.close("rotation", np.asarray(wc(x + s, y + s, aa, bb, p=p)), ref, tol * 4)
    mon.close("reflection", np.asarray(wc(1 - x, 1 - y, aa, bb, p=p)), ref, tol)
    q = rng.permutation(n)
    mon.close("permute", np.asarray(wc(x[q], y, a[q], b, p=p)), ref, tol)
    mon.close("zero-on-equal", np.asarray(wc(x, x[q], a, a[q], p=p)), np.zeros(k), tol)
    if k > 1:
        w1 = [float(np.asarray(wc(x[:, c], y[:, c], a[:, c], b[:, c], p=p)).ravel()[0])
              for c in range(k)]
        mon.close("batch=single", np.array(w1), ref, tol)
    if p == 1:
        w1 = np.asarray(sc.wasserstein1_circle(x, y, aa, bb))
        mon.close("w1-vs-LP", w1, ref, 1e-12)
        mon.close("w1-rotation", np.asarray(sc.wasserstein1_circle(x + s, y + s, aa, bb)), ref, 1e-12 * (1 + abs(s)))


@core.family(FAMILIES, 500)
def median_level(mon, rng, idx):
    n, m = dims(rng, 30)
    x, y = sample(rng, n), sample(rng, m)
    a, b = gen.weights(rng, n), gen.weights(rng, m)
    if rng.random() < 0.3:
        a, b = np.full(n, 1 / n), np.full(m, 1 / m)
    mon.case(x, y, a, b, n=n, m=m)
    ref = exact(x, y, a, b, 1)
    g = lambda *z: float(np.asarray(sc.wasserstein1_circle(*z)).ravel()[0])
    mon.close("w1-vs-LP", g(x, y, a, b), ref, 1e-9)
    mon.close("w1-symmetric", g(y, x, b, a), ref, 1e-9)
    ox, oy = np.argsort(x), np.argsort(y)
    v = sc.wasserstein1_circle(x[ox], y[oy], a[ox], b[oy], require_sort=False)
    mon.close("w1-presorted", float(np.asarray(v).ravel()[0]), ref, 1e-9)


@core.family(FAMILIES, 400)
def larger(mon, rng, idx):
    """Uniform equal-size samples: minimum over cyclic shifts of the sorted assignment."""
    n = int(rng.integers(10, 200))
    x, y = sample(rng, n), sample(rng, n)
    p = float(gen.pick(rng, (1, 2, 3)))
    mon.case(x, y, n=n, p=p)
    xs, ys = np.sort(x), np.sort(y)
    best = np.inf
    for k in range(n):
        d = np.abs(xs - np.roll(ys, k)) % 1
        best = min(best, float((np.minimum(d, 1 - d) ** p).mean()))
    w = np.asarray(ot.wasserstein_circle(x, y, p=p))
    mon.close("vs-assignment", w, np.array([best]), 1e-8)
    ox = np.sort(x)
    w = np.asarray(sc.binary_search_circle(ox, ys, p=p, require_sort=False))
    mon.close("presorted", w, np.array([best]), 1e-8)


@core.family(FAMILIES, 800)
def semidiscrete(mon, rng, idx):
    n = int(rng.integers(1, 15))
    k = int(rng.integers(1, 4))
    x = np.stack([sample(rng, n) for _ in range(k)], 1)
    a = np.stack([gen.weights(rng, n) for _ in range(k)], 1)
    uni = rng.random() < 0.3
    if uni:
        a = np.full((n, k), 1 / n)
    mon.case(x, a, n=n, k=k)
    # W2^2(mu, Unif(S^1)) = min over shifts of int |F^-1(q) - q - t|^2 dq: exact integration
    ref = []
    for c in range(k):
        o = np.argsort(x[:, c])
        xs, w = x[o, c], a[o, c]
        cf = np.concatenate([[0], np.cumsum(w)])
        cf[-1] = 1.0
        m1 = np.sum(xs * np.diff(cf)) - 0.5
        sq = sum((cf[i + 1] - xs[i]) ** 3 - (cf[i] - xs[i]) ** 3 for i in range(n)) / 3
        ref.append(sq - m1 ** 2)
    ref = np.array(ref)
    got = np.asarray(ot.semidiscrete_wasserstein2_unif_circle(x, None if uni else a))
    mon.close("semidiscrete-value", got, ref, 1e-12)
    s = float(rng.normal())
    got = np.asarray(ot.semidiscrete_wasserstein2_unif_circle(x + s, a))
    mon.close("semidiscrete-rotation", got, ref, 1e-11)
    q = rng.permutation(n)
    got = np.asarray(ot.semidiscrete_wasserstein2_unif_circle(x[q], a[q]))
    mon.close("semidiscrete-permute", got, ref, 1e-12)
    got = float(np.asarray(ot.semidiscrete_wasserstein2_unif_circle(x[:, 0], a[:, 0])).ravel()[0])
    mon.close("semidiscrete-flat", got, ref[0], 1e-12)
    # agreement with the discrete solver on a fine grid
    if idx % 8 == 0:
        N = 2000
        g = (np.arange(N) + 0.5) / N
        w = float(np.asarray(ot.wasserstein_circle(x[:, 0], g, a[:, 0] + 0.0, p=2)).ravel()[0])
        mon.close("semidiscrete=discrete", w, ref[0], 1e-3)


def embed(t, x, w, shift):
    """Independent quantile embedding; shift=1 reproduces the known off-by-one."""
    o = np.argsort(x, kind="stable")
    xs, cw = x[o], np.cumsum(w[o])
    q = (t - np.sum(xs * w[o]) + 0.5) % 1
    j = np.clip(np.searchsorted(cw, q) + shift, 0, len(xs) - 1)
    return (xs[j] - t) % 1, np.min(np.abs(q[:, None] - np.concatenate([[0], cw, [1]])[None]), axis=1)


@core.family(FAMILIES, 600)
def linear_circular(mon, rng, idx):
    n, m = dims(rng, 12)
    x, y = rng.random(n), rng.random(m)
    a, b = gen.weights(rng, n, "dirichlet"), gen.weights(rng, m, "dirichlet")
    uni = rng.random() < 0.3
    if uni:
        a, b = np.full(n, 1 / n), np.full(m, 1 / m)
    mon.case(x, y, a, b, n=n, m=m)
    aa, bb = (None, None) if uni else (a, b)
    one = lambda z: float(np.asarray(z).ravel()[0])
    got = one(ot.linear_circular_ot(x, y, aa, bb))
    gotu = one(ot.linear_circular_ot(x, None, aa))
    t = np.linspace(0, 1, 101)[:-1]
    val, valu, safe = {}, {}, True
    for sh in (0, 1):
        eu, mu = embed(t, x, a, sh)
        ev, mv = embed(t, y, b, sh)
        safe = safe and min(mu.min(), mv.min()) > 1e-9
        d = np.abs(eu - ev)
        val[sh] = float(np.mean(np.minimum(d, 1 - d) ** 2))
        valu[sh] = float(np.mean(np.minimum(eu, 1 - eu) ** 2))
    if not safe:
        raise core.Skip
    for name, g, v in (("lcot", got, val), ("lcot-uniform", gotu, valu)):
        ok = abs(g - v[0]) < 1e-10
        known = abs(g - v[1]) < 1e-10
        mon.true(name + "-definition", ok or not known,
                 lambda: "%.6g instead of %.6g: each quantile is taken from the next atom" % (g, v[0]))
        mon.true(name + "-value", ok or known, lambda: "%.6g, definition gives %.6g" % (g, v[0]))
    mon.close("lcot-symmetric", one(ot.linear_circular_ot(y, x, bb, aa)), got, 1e-12)
    mon.le("lcot-zero-on-equal", one(ot.linear_circular_ot(x, x, a, a)), 1e-12)
    q = rng.permutation(n)
    mon.close("lcot-permute", one(ot.linear_circular_ot(x[q], y, a[q], b)), got, 1e-10)
    X = np.stack([x, rng.random(n)], 1)
    Y = np.stack([y, rng.random(m)], 1)
    mon.close("lcot-batch", np.asarray(ot.linear_circular_ot(X, Y, a, b))[0], got, 1e-10)
