"""Independent oracles (none of them imports ot)."""

import numpy as np


def lp_transport(a, b, M):
    """Exact transport value by HiGHS (independent of the network simplex)."""
    from scipy.optimize import linprog
    import scipy.sparse as sp

    n, m = M.shape
    A = sp.vstack([sp.kron(sp.eye(n), np.ones((1, m))),
                   sp.kron(np.ones((1, n)), sp.eye(m))]).tocsr()
    r = linprog(M.ravel(), A_eq=A, b_eq=np.concatenate([a, b]), bounds=(0, None),
                method="highs", options={"primal_feasibility_tolerance": 1e-10,
                                         "dual_feasibility_tolerance": 1e-10})
    if r.x is None:
        return None, None
    return float(r.fun), r.x.reshape(n, m)


def monotone_plan(x, y, a, b):
    """The north-west corner plan of sorted samples: optimal for convex 1D costs."""
    ix, iy = np.argsort(x, kind="stable"), np.argsort(y, kind="stable")
    P = np.zeros((len(x), len(y)))
    i = j = 0
    ra, rb = a[ix[0]], b[iy[0]]
    while True:
        t = min(ra, rb)
        P[ix[i], iy[j]] += t
        ra -= t
        rb -= t
        if ra <= rb:
            i += 1
            if i == len(x):
                break
            ra = a[ix[i]]
        else:
            j += 1
            if j == len(y):
                break
            rb = b[iy[j]]
    return P


def marg_err(P, a, b):
    P = np.asarray(P)
    return max(float(np.max(np.abs(P.sum(1) - a))), float(np.max(np.abs(P.sum(0) - b))))


def xlogx_div(p, q):
    """sum p log(p/q) - p + q with 0 log 0 = 0."""
    p = np.asarray(p, float)
    q = np.asarray(q, float)
    t = np.where(p > 0, p * (np.log(np.where(p > 0, p, 1)) - np.log(np.where(q > 0, q, 1))), 0.0)
    if np.any((p > 0) & (q <= 0)):
        return np.inf
    return float(np.sum(t - p + q))


def fd_grad(f, x, eps=1e-6):
    x = np.array(x, float)
    g = np.zeros_like(x)
    it = np.nditer(x, flags=["multi_index"])
    for _ in it:
        i = it.multi_index
        o = x[i]
        x[i] = o + eps
        fp = f(x)
        x[i] = o - eps
        fm = f(x)
        x[i] = o
        g[i] = (fp - fm) / (2 * eps)
    return g


def residual_certificate(P, M, a, b, tol_support=1e-12, edges=None):
    """Decide optimality of a transport plan from the plan alone.

    Bellman-Ford on the residual graph of (P, M): rows -> columns along allowed
    edges with cost M, columns -> rows along the support of P with cost -M.  The
    plan is optimal iff there is no negative cycle; the node potentials are then a
    feasible dual, and P's own value minus that dual's value is the proven
    sub-optimality gap.  Returns (gap, rounds, u, v): gap is None when potentials do
    not settle (negative cycle).
    """
    P = np.asarray(P, float)
    M = np.asarray(M, float)
    n, m = M.shape
    W = M if edges is None else np.where(edges, M, np.inf)
    sup = P > tol_support
    back = np.where(sup, -M, np.inf).T  # columns -> rows
    du = np.zeros(n)
    scale = max(1e-300, float(np.max(np.abs(M[np.isfinite(M)]))) if M.size else 1.0)
    thr = 1e-11 * scale
    for r in range(2 * (n + m) + 5):
        dv = np.min(du[:, None] + W, axis=0)
        dv = np.where(np.isfinite(dv), dv, 0.0) if not np.all(np.isfinite(dv)) else dv
        nu = np.minimum(du, np.min(dv[:, None] + back, axis=0))
        done = np.all(nu >= du - thr)
        du = nu
        if done:
            break
    else:
        return None, r, None, None
    dv = np.min(du[:, None] + W, axis=0)
    dv = np.where(np.isfinite(dv), dv, 0.0)
    u, v = -du, dv  # u_i + v_j <= M_ij by construction
    gap = float(np.sum(P * np.where(P != 0, M, 0.0))) - float(u @ a + v @ b)
    return gap, r, u, v
