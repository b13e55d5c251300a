"""Hostile and realistic problem generators shared by the checks."""

import numpy as np

WEIGHT_KINDS = ("uniform", "dirichlet", "sparse", "skewed", "dyadic", "geometric")
COST_KINDS = ("sqeuclid", "euclid", "ties", "random", "signed", "huge", "tiny",
              "constant", "dupes", "lowrank", "monge", "bottleneck")


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def weights(rng, n, kind=None, positive=False):
    """A probability vector (float64)."""
    kind = kind or pick(rng, WEIGHT_KINDS)
    if kind == "sparse" and positive:
        kind = "dirichlet"
    if kind == "uniform":
        w = np.ones(n)
    elif kind == "dirichlet":
        w = rng.gamma(1.0, size=n) + 1e-3
    elif kind == "sparse":
        w = rng.gamma(1.0, size=n) + 1e-2
        z = rng.random(n) < 0.4
        if z.all():
            z[int(rng.integers(n))] = False
        w[z] = 0.0
    elif kind == "skewed":
        w = 10.0 ** rng.uniform(-7, 0, size=n)
    elif kind == "dyadic":
        w = rng.integers(1, 9, size=n).astype(float)
    elif kind == "geometric":
        w = 0.6 ** np.arange(n)[rng.permutation(n)]
    else:
        raise ValueError(kind)
    return w / w.sum()


def points(rng, n, d, kind=None):
    kind = kind or pick(rng, ("gauss", "uniform", "grid", "clusters", "dupes", "line"))
    if kind == "gauss":
        x = rng.normal(size=(n, d))
    elif kind == "uniform":
        x = rng.random((n, d))
    elif kind == "grid":
        x = rng.integers(0, 4, size=(n, d)).astype(float)
    elif kind == "clusters":
        c = rng.normal(size=(3, d)) * 4
        x = c[rng.integers(3, size=n)] + 0.1 * rng.normal(size=(n, d))
    elif kind == "dupes":
        b = rng.normal(size=(max(1, n // 2), d))
        x = b[rng.integers(len(b), size=n)]
    elif kind == "line":
        x = np.outer(rng.normal(size=n), rng.normal(size=d))
    else:
        raise ValueError(kind)
    return x


def cost(rng, n, m, kind=None):
    kind = kind or pick(rng, COST_KINDS)
    if kind in ("sqeuclid", "euclid", "dupes", "huge", "tiny", "monge"):
        d = 1 if kind == "monge" else int(rng.integers(1, 4))
        x = points(rng, n, d, "dupes" if kind == "dupes" else None)
        y = points(rng, m, d, "dupes" if kind == "dupes" else None)
        D = ((x[:, None] - y[None]) ** 2).sum(-1)
        if kind == "euclid":
            D = np.sqrt(D)
        if kind == "huge":
            D = D * 1e6
        if kind == "tiny":
            D = D * 1e-4
        return D
    if kind == "ties":
        return rng.integers(0, 3, size=(n, m)).astype(float)
    if kind == "random":
        return rng.random((n, m))
    if kind == "signed":
        return rng.normal(size=(n, m))
    if kind == "constant":
        return np.full((n, m), float(rng.integers(0, 3)))
    if kind == "lowrank":
        return rng.normal(size=(n, 2)) @ rng.normal(size=(2, m))
    if kind == "bottleneck":
        M = rng.random((n, m))
        M[rng.random((n, m)) < 0.5] += 100.0
        return M
    raise ValueError(kind)


def layout(rng, A):
    """The same numbers in another memory layout."""
    k = int(rng.integers(4))
    if k == 0:
        return A
    if k == 1:
        return np.asfortranarray(A)
    if k == 2:
        B = np.empty((2 * A.shape[0],) + A.shape[1:], dtype=A.dtype)
        B[::2] = A
        B[1::2] = 7
        return B[::2]
    return np.ascontiguousarray(A[::-1])[::-1]


def symmetric_cost(rng, n, kind=None):
    kind = kind or pick(rng, ("dist", "sqdist", "graph", "random", "kernel"))
    if kind in ("dist", "sqdist", "kernel"):
        x = points(rng, n, 2, pick(rng, ("gauss", "uniform", "clusters")))
        D = ((x[:, None] - x[None]) ** 2).sum(-1)
        if kind == "dist":
            D = np.sqrt(D)
        if kind == "kernel":
            D = np.exp(-D)
        return D
    if kind == "graph":
        A = (rng.random((n, n)) < 0.4).astype(float)
        A = np.triu(A, 1)
        return A + A.T
    A = rng.random((n, n))
    return (A + A.T) / 2
