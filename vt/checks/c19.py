"""Approximate Gromov-Wasserstein.  Sampled and pointwise plans (every step size, epsilon, batch,
seed) must keep the prescribed marginals; the Monte-Carlo estimator is compared with the exact
four-index objective whenever its draws are exhaustive and the plan deterministic, and through the
mean of many independent runs otherwise.  Partitions must cover each node once with a representant
inside its part; the quantised plan must carry exactly the marginals of the original nodes, be the
global plan times the independent local monotone plans in the original node order, and report its
own objective.  Low-rank factors must satisfy the factored constraints to the Dykstra tolerance and
the reported value must be the exact objective of Q diag(1/g) R^T."""

import warnings

import numpy as np

import ot
from ot.gromov import _quantized as oq
from vt import core, gen, gw, oracles
from vt.checks.c15 import coupling, quiet

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("marginals", "sparse-type", "estimate", "estimate-std", "estimate-mean", "logged-estimate", "partition", "representants",
            "format", "glued-plan", "global-marginals", "local-plan", "local-cost", "quantized-cost", "factor-marginals", "common-marginal",
            "lazy-plan", "value")
REQUIRED_EVENTS = ("zero-weights", "swapped", "asymmetric", "exhaustive", "pointwise", "sampled", "empty-part", "features", "duplicates", "iteration-cap")


def loss_sq(a, b):
    return (a - b) ** 2


def loss_kl(a, b):
    return a * np.log((a + 1.0) / (b + 1.0)) - a + b


def loss_abs3(a, b):
    return np.abs(a - 2 * b) ** 1.5


LOSSES = {"square": loss_sq, "asym-kl": loss_kl, "abs": loss_abs3}


def exact(C1, C2, T, f):
    return float(np.einsum("ikjl,ij,kl->", f(C1[:, :, None, None], C2[None, None]), T, T, optimize=True))


@core.family(FAMILIES, 250)
def estimation(mon, rng, idx):
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    name = gen.pick(rng, tuple(LOSSES))
    f = LOSSES[name]
    C1, C2 = np.abs(gw.structure(rng, n, "square_loss", rng.random() < 0.6)), np.abs(gw.structure(rng, m, "square_loss", rng.random() < 0.6))
    # a Monge plan: each row of the larger side has one entry
    big = max(n, m)
    w = gen.weights(rng, big)
    to = rng.integers(0, min(n, m), big)
    if n == m:
        to = rng.permutation(n)
    T = np.zeros((big, min(n, m)))
    T[np.arange(big), to] = w
    if n < m:
        T = T.T
        mon.event("swapped")
    p, q = T.sum(1), T.sum(0)
    if (w == 0).any():
        mon.event("zero-weights")
    sparse = rng.random() < 0.4
    mon.case(C1, C2, T, loss=name, sparse=sparse, n=n, m=m)
    mon.event("exhaustive")
    from scipy.sparse import csr_matrix
    arg = csr_matrix(T) if sparse else T
    v, sd = quiet(ot.gromov.GW_distance_estimation, C1, C2, p, q, f, arg, nb_samples_p=big, nb_samples_q=int(rng.integers(1, 4)), random_state=int(idx))
    ref = exact(C1, C2, T, f)
    mon.close("estimate", float(v), ref, 1e-9, 1e-9)
    mon.close("estimate-std", float(sd), 0.0, 1e-7, 0, "a deterministic plan leaves no variance")
    v = quiet(ot.gromov.GW_distance_estimation, C1, C2, p, q, f, arg, nb_samples_p=big + 5, std=False, random_state=int(idx))
    mon.close("estimate", float(v), ref, 1e-9, 1e-9)


@core.family(FAMILIES, 24, weight=4)
def unbiased(mon, rng, idx):
    n, m = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    name = gen.pick(rng, tuple(LOSSES))
    f = LOSSES[name]
    C1, C2 = np.abs(gw.structure(rng, n, "square_loss", True)), np.abs(gw.structure(rng, m, "square_loss", rng.random() < 0.5))
    p, q = gen.weights(rng, n, gen.pick(rng, ("dirichlet", "uniform", "sparse"))), gen.weights(rng, m, "dirichlet")
    T = coupling(rng, p, q)
    nb_p, nb_q = int(rng.integers(1, max(n, m) + 1)), int(rng.integers(1, 4))
    mon.case(C1, C2, T, loss=name, nb=(nb_p, nb_q), n=n, m=m)
    rs = np.random.RandomState(idx)
    R = 1500
    v = np.array([float(ot.gromov.GW_distance_estimation(C1, C2, p, q, f, T, nb_samples_p=nb_p, nb_samples_q=nb_q, std=False, random_state=rs)) for _ in range(R)])
    ref = exact(C1, C2, T, f)
    # 6.5 standard errors (plus a term for heavy tails of the sample variance)
    mon.le("estimate-mean", abs(v.mean() - ref), 6.5 * v.std() / np.sqrt(R) + 12 * np.ptp(v) / R + 1e-9)


@core.family(FAMILIES, 150, weight=2)
def stochastic(mon, rng, idx):
    n, m = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    name = gen.pick(rng, tuple(LOSSES))
    f = LOSSES[name]
    sym = bool(rng.random() < 0.6)
    C1, C2 = np.abs(gw.structure(rng, n, "square_loss", sym)), np.abs(gw.structure(rng, m, "square_loss", sym))
    if not sym:
        mon.event("asymmetric")
    p, q = gen.weights(rng, n, gen.pick(rng, ("uniform", "dirichlet", "sparse", "dyadic"))), gen.weights(rng, m, gen.pick(rng, ("uniform", "dirichlet", "sparse", "dyadic")))
    if (p == 0).any() or (q == 0).any():
        mon.event("zero-weights")
    seed = int(rng.integers(10 ** 6))
    if rng.random() < 0.5:
        mon.event("pointwise")
        alpha = float(gen.pick(rng, (1, 0.1, 0.7)))
        kw = dict(alpha=1 if alpha == 1 else alpha, max_iter=int(gen.pick(rng, (1, 3, 11, 60))), random_state=seed)
        mon.case(C1, C2, p, q, loss=name, solver="pointwise", kw=str(kw))
        T, log = quiet(ot.gromov.pointwise_gromov_wasserstein, C1, C2, p, q, f, log=True, **kw)
        T2 = quiet(ot.gromov.pointwise_gromov_wasserstein, C1, C2, p, q, f, **kw)
        mon.true("sparse-type", hasattr(T, "tocsr") and T.shape == (n, m))
        T, T2 = T.toarray(), T2.toarray()
        mon.close("marginals", T2, T, 1e-12, 0, "log=False is another plan")
        mon.le("marginals", oracles.marg_err(T, p, q), 1e-9)
        mon.true("marginals", bool(np.all(T >= 0)))
        if alpha == 1:
            # a vertex given by one pair of rows: it must be one of the monotone plans
            best = min(float(np.abs(T - oracles.monotone_plan(C1[i], C2[j], p, q)).max()) for i in range(n) for j in range(m)) \
                if len(np.unique(C1)) == n * n and len(np.unique(C2)) == m * m else 0.0
            mon.le("marginals", best, 1e-9)
    else:
        mon.event("sampled")
        eps = float(gen.pick(rng, (0, 0, 0.1, 1.0)))
        nb = gen.pick(rng, (1, 5, 100, (2, 2), (1, 3)))
        if isinstance(nb, tuple):
            nb = (min(nb[0], n), min(nb[1], m))
        else:
            nb = nb if nb < 2 * n else min(nb, n * m)
        kw = dict(nb_samples_grad=nb, epsilon=eps, max_iter=int(gen.pick(rng, (1, 3, 20))), random_state=seed)
        mon.case(C1, C2, p, q, loss=name, solver="sampled", kw=str(kw))
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            try:
                T, log = ot.gromov.sampled_gromov_wasserstein(C1, C2, p, q, f, log=True, **kw)
            except ValueError:
                if eps > 0 and rec:  # Sinkhorn warned of the failure that made the plan unusable
                    mon.event("sinkhorn-failed")
                    return
                raise
        noisy = any("did not converge" in str(r.message) or "numerical" in str(r.message).lower() for r in rec)
        mon.true("marginals", T.shape == (n, m) and bool(np.all(T >= 0)) and bool(np.isfinite(T).all()))
        if eps == 0:
            mon.le("marginals", oracles.marg_err(T, p, q), 1e-9)
        elif not noisy:
            mon.le("marginals", oracles.marg_err(T, p, q), 1e-6)
    # the logged estimate is an average of losses the plan can produce
    S1, S2 = np.flatnonzero(T.sum(1)), np.flatnonzero(T.sum(0))
    vals = f(C1[np.ix_(S1, S1)][:, :, None, None], C2[np.ix_(S2, S2)][None, None])
    e, sd = float(log["gw_dist_estimated"]), float(log["gw_dist_std"])
    mon.true("logged-estimate", np.isfinite(e) and np.isfinite(sd) and sd >= 0)
    if np.allclose(p, 1 / n) and np.allclose(q, 1 / m):
        mon.true("logged-estimate", vals.min() - 1e-9 <= e <= vals.max() + 1e-9, "%g not in [%g, %g]" % (e, vals.min(), vals.max()))


def part_ok(mon, part, rep, n, npart):
    part = np.asarray(part)
    rep = [int(r) for r in rep]
    ids = np.unique(part)
    mon.true("partition", part.shape == (n,))
    if npart is None or npart < n:
        mon.true("partition", npart is None or len(ids) <= npart)
        npart = npart or 0
        if len(ids) < npart:
            mon.event("empty-part")
    else:
        mon.true("partition", len(ids) == n)
    mon.true("representants", len(rep) == len(ids) and all(part[r] == i for r, i in zip(rep, ids)), "representant outside its part")
    return ids, rep


def glued(mon, T, Tg, Tl, sides, p, q, metrics):
    """T is the global plan times local monotone plans, in the original node order."""
    (part1, ids1, rep1), (part2, ids2, rep2) = sides
    D1, D2 = metrics
    ref = np.zeros((len(p), len(q)))
    for a, i in enumerate(ids1):
        I = np.flatnonzero(part1 == i)
        for b, j in enumerate(ids2):
            if Tg[a, b] == 0:
                continue
            J = np.flatnonzero(part2 == j)
            x, y = D1[rep1[a], I], D2[rep2[b], J]
            local = np.asarray(Tl[(a, b)])
            mon.le("local-plan", oracles.marg_err(local, p[I] / p[I].sum(), q[J] / q[J].sum()), 1e-9)
            opt = float(np.sum(oracles.monotone_plan(x, y, p[I] / p[I].sum(), q[J] / q[J].sum()) * (x[:, None] - y[None]) ** 2))
            mon.close("local-plan", float(np.sum(local * (x[:, None] - y[None]) ** 2)), opt, 1e-9 * (1 + opt), 1e-9, "local plan not the 1D optimum")
            ref[np.ix_(I, J)] = Tg[a, b] * local
    mon.close("glued-plan", T, ref, 1e-10, 0)


@core.family(FAMILIES, 160, weight=2)
def quantized_graphs(mon, rng, idx):
    n, m = int(rng.integers(1, 11)), int(rng.integers(1, 11))
    C1, C2 = (gen.symmetric_cost(rng, n, "kernel") + 0.05, gen.symmetric_cost(rng, m, "kernel") + 0.05)
    p, q = gen.weights(rng, n, gen.pick(rng, ("uniform", "dirichlet", "sparse", "dyadic"))), gen.weights(rng, m, gen.pick(rng, ("uniform", "dirichlet", "dyadic")))
    k1, k2 = int(rng.integers(1, n + 2)), int(rng.integers(1, m + 2))
    fused = bool(rng.random() < 0.5)
    alpha = float(gen.pick(rng, (0.3, 0.7))) if fused else 1.0
    F1, F2 = (rng.normal(size=(n, 2)), rng.normal(size=(m, 2))) if fused else (None, None)
    part = gen.pick(rng, ("random", "random", "louvain", "fluid", "spectral"))
    rep = gen.pick(rng, ("random", "pagerank"))
    if fused:
        mon.event("features")
        part += gen.pick(rng, ("", "_fused"))
        rep += gen.pick(rng, ("", "_fused"))
    if (p == 0).any():
        mon.event("zero-weights")
    seed = int(rng.integers(1000))
    aux = rng.random() < 0.3
    A1, A2 = (gen.symmetric_cost(rng, n, "kernel") + 0.05, gen.symmetric_cost(rng, m, "kernel") + 0.05) if aux else (C1, C2)
    mon.case(C1, C2, p, q, F1, F2, n=n, m=m, k=(k1, k2), part=part, rep=rep, alpha=alpha, seed=seed, aux=aux)
    Tg, Tl, T, log = quiet(ot.gromov.quantized_fused_gromov_wasserstein, C1, C2, k1, k2, p=p, q=q, C1_aux=A1 if aux else None, C2_aux=A2 if aux else None,
                           F1=F1, F2=F2, alpha=alpha, part_method=part, rep_method=rep, log=True, random_state=seed)
    T2 = quiet(ot.gromov.quantized_fused_gromov_wasserstein, C1, C2, k1, k2, p=p, q=q, C1_aux=A1 if aux else None, C2_aux=A2 if aux else None,
               F1=F1, F2=F2, alpha=alpha, part_method=part, rep_method=rep, random_state=seed)[2]
    mon.le("marginals", oracles.marg_err(T, p, q), 1e-9)
    mon.true("marginals", bool(np.all(T >= 0)))
    mon.close("marginals", T2, T, 1e-12, 0, "log=False is another plan")
    D1 = D2 = None
    if fused:
        D1, D2 = ((F1[:, None] - F1[None]) ** 2).sum(-1), ((F2[:, None] - F2[None]) ** 2).sum(-1)
    sides, metrics = [], []
    for C, A, D, k, w in ((C1, A1, D1, k1, p), (C2, A2, D2, k2, q)):
        B = alpha * A + (1 - alpha) * D if "fused" in part else A
        lab = quiet(ot.gromov.get_graph_partition, B, k, part.replace("_fused", ""), random_state=seed)
        G = alpha * A + (1 - alpha) * D if "fused" in rep else A
        r = quiet(ot.gromov.get_graph_representants, G, lab, rep.replace("_fused", ""), seed)
        ids, r = part_ok(mon, lab, r, len(w), k if "louvain" not in part or k == 1 or k >= len(w) else None)
        sides.append((lab, ids, r))
        metrics.append(C if not fused else alpha * C + (1 - alpha) * D)
        F = None if not fused else (F1 if C is C1 else F2)
        out = quiet(ot.gromov.format_partitioned_graph, C, w, lab, r, F, D, alpha)
        mon.close("format", out[0], C[np.ix_(r, r)], 0)
        mon.true("format", len(out[1]) == len(out[2]) == len(ids))
        for a, i in enumerate(ids):
            I = np.flatnonzero(lab == i)
            mon.close("format", out[1][a], metrics[-1][r[a], I], 1e-12, 1e-12)
            mon.close("format", out[2][a], w[I], 0)
    pr = [np.array([w[s[0] == i].sum() for i in s[1]]) for s, w in zip(sides, (p, q))]
    mon.le("global-marginals", oracles.marg_err(Tg, *pr), 1e-9)
    glued(mon, T, Tg, Tl, sides, p, q, metrics)
    cost = alpha * exact(C1, C2, T, loss_sq)
    glob = alpha * exact(C1[np.ix_(sides[0][2], sides[0][2])], C2[np.ix_(sides[1][2], sides[1][2])], np.asarray(Tg), loss_sq)
    if fused:
        M = ((F1[:, None] - F2[None]) ** 2).sum(-1)
        cost += (1 - alpha) * float(np.sum(M * T))
        glob += (1 - alpha) * float(np.sum(M[np.ix_(sides[0][2], sides[1][2])] * Tg))
    mon.close("quantized-cost", float(log["qFGW_dist"]), cost, 1e-9 * (1 + cost), 1e-9)
    mon.close("quantized-cost", float(log["global dist"]), glob, 1e-8 * (1 + glob), 1e-8, "global")
    for (a, b), L in Tl.items():
        I, J = np.flatnonzero(sides[0][0] == sides[0][1][a]), np.flatnonzero(sides[1][0] == sides[1][1][b])
        x, y = metrics[0][sides[0][2][a], I], metrics[1][sides[1][2][b], J]
        mon.close("local-cost", float(log["local dist (%d,%d)" % (a, b)]), float(np.sum(np.asarray(L) * (x[:, None] - y[None]) ** 2)), 1e-9, 1e-9)


@core.family(FAMILIES, 120, weight=2)
def quantized_samples(mon, rng, idx):
    n, m, d = int(rng.integers(1, 12)), int(rng.integers(1, 12)), int(rng.integers(1, 4))
    kind = gen.pick(rng, ("gauss", "dupes", "dupes", "grid"))
    X1, X2 = gen.points(rng, n, d, kind), gen.points(rng, m, max(1, d - 1))
    if len(np.unique(X1, axis=0)) < n:
        mon.event("duplicates")
    p, q = gen.weights(rng, n, gen.pick(rng, ("uniform", "dirichlet", "sparse", "dyadic"))), gen.weights(rng, m, gen.pick(rng, ("uniform", "dirichlet", "dyadic")))
    k1, k2 = int(rng.integers(1, n + 2)), int(rng.integers(1, m + 2))
    fused = bool(rng.random() < 0.5)
    alpha = float(gen.pick(rng, (0.3, 0.7))) if fused else 1.0
    F1, F2 = (rng.normal(size=(n, 2)), rng.normal(size=(m, 2))) if fused else (None, None)
    method = gen.pick(rng, ("random", "kmeans", "kmeans"))
    if fused:
        mon.event("features")
        method += gen.pick(rng, ("", "_fused"))
    seed = int(rng.integers(1000))
    mon.case(X1, X2, p, q, F1, F2, n=n, m=m, k=(k1, k2), method=method, alpha=alpha, seed=seed)
    Tg, Tl, T, log = quiet(ot.gromov.quantized_fused_gromov_wasserstein_samples, X1, X2, k1, k2, p=p, q=q, F1=F1, F2=F2, alpha=alpha, method=method, log=True, random_state=seed)
    mon.le("marginals", oracles.marg_err(T, p, q), 1e-9)
    mon.true("marginals", bool(np.all(T >= 0)))
    sides, metrics, Cs = [], [], []
    for X, F, k, w in ((X1, F1, k1, p), (X2, F2, k2, q)):
        C = ((X[:, None] - X[None]) ** 2).sum(-1)
        Z = np.concatenate([alpha * X, (1 - alpha) * F], axis=1) if "fused" in method and alpha != 1 else X
        lab, r = quiet(ot.gromov.get_partition_and_representants_samples, Z, k, method.replace("_fused", ""), seed)
        ids, r = part_ok(mon, lab, r, len(w), k)
        sides.append((lab, ids, r))
        metrics.append(C if not fused else alpha * C + (1 - alpha) * ((F[:, None] - F[None]) ** 2).sum(-1))
        Cs.append(C)
        out = quiet(ot.gromov.format_partitioned_samples, X, w, lab, r, F, alpha)
        mon.close("format", out[0], C[np.ix_(r, r)], 1e-9 * (1 + C.max()), 1e-9)
        for a, i in enumerate(ids):
            I = np.flatnonzero(lab == i)
            mon.close("format", np.ravel(out[1][a]), metrics[-1][r[a], I], 1e-9 * (1 + C.max()), 1e-9)
            mon.close("format", out[2][a], w[I], 0)
    pr = [np.array([w[s[0] == i].sum() for i in s[1]]) for s, w in zip(sides, (p, q))]
    mon.le("global-marginals", oracles.marg_err(Tg, *pr), 1e-9)
    glued(mon, T, Tg, Tl, sides, p, q, metrics)
    cost = alpha * exact(Cs[0], Cs[1], T, loss_sq)
    if fused:
        cost += (1 - alpha) * float(np.sum(((F1[:, None] - F2[None]) ** 2).sum(-1) * T))
    mon.close("quantized-cost", float(log["qFGW_dist"]), cost, 1e-8 * (1 + cost), 1e-8)


@core.family(FAMILIES, 120, weight=3)
def lowrank(mon, rng, idx):
    n, m = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    X, Y = gen.points(rng, n, int(rng.integers(1, 4)), gen.pick(rng, ("gauss", "uniform", "clusters"))), gen.points(rng, m, int(rng.integers(1, 3)), "gauss")
    t = float(gen.pick(rng, (1.0, 1.0, 0.05, 20.0)))
    X, Y = X * t, Y * t
    a, b = gen.weights(rng, n, gen.pick(rng, ("uniform", "dirichlet", "dyadic"))), gen.weights(rng, m, gen.pick(rng, ("uniform", "dirichlet", "dyadic")))
    rank = gen.pick(rng, (None, 1, 2, 3, 50))
    r = min(n, m) if rank is None else min(n, m, rank)
    kw = dict(reg=float(gen.pick(rng, (0, 0, 0.1))), rank=rank, rescale_cost=bool(rng.random() < 0.7), numItermax=int(gen.pick(rng, (1, 2, 20, 200))),
              stopThr_dykstra=float(gen.pick(rng, (1e-3, 1e-7))), seed_init=int(rng.integers(1000)), alpha=float(gen.pick(rng, (1e-10, 0.05 / r))))
    mon.case(X, Y, a, b, n=n, m=m, kw=str(kw))
    from ot.lowrank import compute_lr_sqeuclidean_matrix
    A1, A2 = compute_lr_sqeuclidean_matrix(X, X, kw["rescale_cost"])
    B1, B2 = compute_lr_sqeuclidean_matrix(Y, Y, kw["rescale_cost"])
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        Q, R, g, log = ot.gromov.lowrank_gromov_wasserstein_samples(X, Y, a, b, log=True, warn_dykstra=True, **kw)
    if any("Low Rank" in str(w.message) for w in rec):
        mon.event("iteration-cap")
    if not (np.isfinite(Q).all() and np.isfinite(R).all() and np.isfinite(g).all()):
        # n = m = 1 style degenerate geometry (constant gradient) is reported as NaN
        mon.true("factor-marginals", False, "NaN factors")
        return
    mon.true("factor-marginals", Q.shape == (n, r) and R.shape == (m, r) and g.shape == (r,))
    mon.true("factor-marginals", bool(np.all(Q >= 0) and np.all(R >= 0) and np.all(g > 0)))
    t = 2 * kw["stopThr_dykstra"] + 1e-9
    if not any("Dykstra" in str(w.message) for w in rec):
        mon.le("factor-marginals", float(np.abs(Q.sum(1) - a).sum()), t)
        mon.le("factor-marginals", float(np.abs(R.sum(1) - b).sum()), t)
        mon.le("common-marginal", float(np.abs(Q.sum(0) - g).sum()), t)
        mon.le("common-marginal", float(np.abs(R.sum(0) - g).sum()), t)
    T = (Q / g) @ R.T
    mon.close("lazy-plan", np.asarray(log["lazy_plan"][:]), T, 1e-12, 1e-9)
    C1, C2 = A1 @ A2.T, B1 @ B2.T
    val = float(a @ C1 ** 2 @ a + b @ C2 ** 2 @ b - 2 * np.sum((C1 @ T @ C2.T) * T))
    s = float((C1 ** 2).max() + (C2 ** 2).max())
    mon.close("value", float(log["value_quad"]), val, 1e-8 * (1 + s), 1e-8)
    ent = sum(float(np.sum(z * np.log(z + 1e-16))) for z in (Q, R, g))
    mon.close("value", float(log["value"]), val + kw["reg"] * ent, 1e-8 * (1 + s), 1e-8)
