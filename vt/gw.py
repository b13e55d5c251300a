"""Brute-force (four-index) Gromov-Wasserstein objectives and random structures."""

import numpy as np

from vt import gen


def pair_loss(C1, C2, loss):
    """L[i, k, j, l] = loss(C1[i, k], C2[j, l])."""
    a, b = np.asarray(C1, float)[:, :, None, None], np.asarray(C2, float)[None, None]
    if loss == "square_loss":
        return (a - b) ** 2
    return np.where(a > 0, a * np.log(np.maximum(a, 1e-300) / b), 0.0) - a + b


def value(L, T):
    return float(np.einsum("ikjl,ij,kl->", L, T, T, optimize=True))


def grad(L, T):
    return np.einsum("ikjl,kl->ij", L, T) + np.einsum("kilj,kl->ij", L, T)


def structure(rng, n, loss, symmetric, top=1.0):
    k = int(rng.integers(5))
    if k == 0:
        C = gen.symmetric_cost(rng, n, "graph")
    elif k == 1:
        C = gen.symmetric_cost(rng, n)
    elif k == 2:
        x = gen.points(rng, n, 2)
        C = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    elif k == 3:
        C = rng.integers(0, 3, (n, n)).astype(float)
        C = np.triu(C) + np.triu(C, 1).T
    else:
        C = rng.normal(size=(n, n))
        C = C + C.T
    if not symmetric:
        C = C + np.triu(rng.random((n, n)), 1) * (np.abs(C).max() + 0.1)
    C = C / max(1e-9, np.abs(C).max()) * top
    if loss == "kl_loss":
        C = np.abs(C) + 0.05
    return np.array(C)
