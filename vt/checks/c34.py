"""Template pooling layers (ot.gnn).  The output of each layer, for random graphs, batches and
templates, is compared per graph and template with the exact linear program (Wasserstein layer, feature
part) or with the fused Gromov-Wasserstein cost recomputed in double precision: the returned distance
must be the objective of a feasible stationary coupling, must not exceed the objective of the product
coupling and must agree with a separate call on that single graph.  Batches are regrouped, interleaved,
reordered and relabelled.  Backward passes are compared with the envelope formulas at the exact plan,
and optimisation steps must leave the node weights in the simplex."""

import warnings

import numpy as np
import torch

import ot
from vt import core, gen, oracles

FAMILIES = {}
BACKENDS = ("torch",)
REQUIRED = ("tw", "tw-alone", "tw-grad", "tfgw", "tfgw-alone", "tfgw-bound", "tfgw-grad", "order", "relabel", "simplex", "linear-end", "init", "inputs-intact", "refused", "step")
REQUIRED_EVENTS = ("batch", "interleaved", "many-nodes", "isolated-node", "multi-alpha", "trained-alpha", "trained-weights", "uniform-weights", "single-node", "alpha-end", "doubled-edge")


def layers():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import ot.gnn
    return ot.gnn


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def softmax(z):
    e = np.exp(z - z.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def graph(mon, rng, d, big=False):
    n = int(rng.integers(1, 7)) if not big else int(rng.integers(20, 40))
    if n == 1:
        mon.event("single-node")
    if n > 19:
        mon.event("many-nodes")
    A = np.triu(rng.random((n, n)) < rng.uniform(0.2, 0.9), 1)
    if n > 1 and not (A + A.T).any(0).all():
        mon.event("isolated-node")
    i, j = np.nonzero(A)
    e = np.array([np.r_[i, j], np.r_[j, i]]).astype(np.int64)
    o = rng.permutation(e.shape[1])
    if e.shape[1] and rng.random() < 0.1:
        # a parallel edge counts twice in the adjacency matrix
        mon.event("doubled-edge")
        o = np.r_[o, o[:1], [np.flatnonzero((e[0] == e[1, o[0]]) & (e[1] == e[0, o[0]]))[0]]]
    e = e[:, o]
    C = np.zeros((n, n))
    np.add.at(C, (e[0], e[1]), 1.0)
    return rng.normal(size=(n, d)).astype(np.float32), e, C


def pack(mon, rng, graphs):
    """one batch: node features, edges, graph index (nodes of different graphs interleaved or not)"""
    x, b = np.concatenate([g[0] for g in graphs]), np.concatenate([np.full(len(g[0]), k) for k, g in enumerate(graphs)])
    off = np.cumsum([0] + [len(g[0]) for g in graphs])
    e = np.concatenate([g[1] + off[k] for k, g in enumerate(graphs)], 1)
    if rng.random() < 0.4:
        mon.event("interleaved")
        o = np.argsort(rng.random(len(b)))
        inv = np.argsort(o)
        x, b, e = x[o], b[o], inv[e]
    e = e[:, rng.permutation(e.shape[1])]
    mon.event("batch")
    return torch.tensor(x), torch.tensor(e), torch.tensor(b)


def sq(x, y):
    return ((x[:, None].astype(float) - y[None].astype(float)) ** 2).sum(-1)


def set_params(layer, rng, d):
    """well separated, non-default parameters"""
    with torch.no_grad():
        layer.tplt_features.copy_(torch.tensor(rng.normal(size=tuple(layer.tplt_features.shape))))
        layer.q0.copy_(torch.tensor(rng.normal(size=tuple(layer.q0.shape)) if isinstance(layer.q0, torch.nn.Parameter) else np.zeros(tuple(layer.q0.shape))))
    return np.array(layer.tplt_features.detach()), softmax(np.array(layer.q0.detach()).astype(float))


@core.family(FAMILIES, 120, weight=3)
def wasserstein(mon, rng, idx):
    g = layers()
    d, K, m = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 6))
    big = idx % 8 == 0
    if big:
        m = int(rng.integers(10, 20))
    tr = bool(rng.random() < 0.7)
    layer = g.TWPooling(d, K, m, train_node_weights=tr)
    mon.event("trained-weights" if tr else "uniform-weights")
    F, q = set_params(layer, rng, d)
    gs = [graph(mon, rng, d, big) for _ in range(int(rng.integers(1, 4)))]
    mon.case(*[x[0] for x in gs], F, q, K=K, m=m, tr=tr)
    x, e, b = pack(mon, rng, gs)
    keep = [t.clone() for t in (x, e, b)]
    out = quiet(layer, x, e, b)
    mon.true("inputs-intact", all(torch.equal(u, v) for u, v in zip(keep, (x, e, b))))
    want = np.zeros((len(gs), K))
    for i, (X, _, _) in enumerate(gs):
        for j in range(K):
            want[i, j] = oracles.lp_transport(np.full(len(X), 1 / len(X)), q[j], sq(X, F[j]))[0]
    if not mon.true("tw", tuple(out.shape) == want.shape):
        return
    t = 1e-5 * (1 + want.max())
    mon.close("tw", out.detach().numpy(), want, t, 1e-5, "exact transport to the template")
    al = np.stack([quiet(layer, torch.tensor(X[0])).detach().numpy() for X in gs])
    mon.close("tw-alone", al, out.detach().numpy(), t, 1e-5)
    o = rng.permutation(len(gs[0][0]))
    mon.close("relabel", quiet(layer, torch.tensor(gs[0][0][o])).detach().numpy(), al[0], t, 1e-5, "tw")
    o = rng.permutation(len(gs))
    mon.close("order", quiet(layer, *pack(mon, rng, [gs[k] for k in o])).detach().numpy(), al[o], t, 1e-5, "tw")
    # derivative of a random combination of the outputs, at the exact plan and potentials
    w = rng.normal(size=want.shape)
    x.requires_grad_(True)
    (quiet(layer, x, e, b) * torch.tensor(w, dtype=torch.float32)).sum().backward()
    GF, GX = np.zeros(F.shape), np.zeros(tuple(x.shape))
    bb = b.numpy()
    xs = x.detach().numpy()
    slack = 1.0
    for i in range(len(gs)):
        r = np.flatnonzero(bb == i)
        for j in range(K):
            C = sq(xs[r], F[j])
            a = np.full(len(r), 1 / len(r))
            P = oracles.lp_transport(a, q[j], C)[1]
            # the plan has to be unique
            h = 1e-4
            P2 = oracles.lp_transport(a, q[j], C + h * rng.normal(size=C.shape))[1]
            slack = max(slack, 1.0 + 1e9 * float(np.abs(P - P2).max() > 1e-6))
            D = xs[r][:, None].astype(float) - F[j][None]
            GX[r] += w[i, j] * 2 * (P[:, :, None] * D).sum(1)
            GF[j] -= w[i, j] * 2 * (P[:, :, None] * D).sum(0)
    if slack == 1:
        mon.close("tw-grad", layer.tplt_features.grad.numpy(), GF, 1e-4, 1e-4, "template features")
        mon.close("tw-grad", x.grad.numpy(), GX, 1e-4, 1e-4, "node features")
    if tr:
        # finite differences along the softmax logits
        z = layer.q0.detach().numpy().astype(float)
        v = rng.normal(size=z.shape)

        def f(s):
            qs = softmax(z + s * v)
            return sum(w[i, j] * oracles.lp_transport(np.full(len(X[0]), 1 / len(X[0])), qs[j], sq(X[0], F[j]))[0] for i, X in enumerate(gs) for j in range(K))

        if not big:
            s = 1e-5
            l, r = (f(0) - f(-s)) / s, (f(s) - f(0)) / s
            got = float((layer.q0.grad.numpy() * v).sum())
            if abs(l - r) < 1e-3:
                mon.close("tw-grad", got, (l + r) / 2, 2e-3 * (1 + np.abs(w).sum() * want.max() * 0.01), 2e-3, "node weights")
        opt = torch.optim.SGD(layer.parameters(), lr=0.5)
        opt.step()
        qn = layer.softmax(layer.q0).detach().numpy()
        mon.true("simplex", bool((qn >= 0).all()) and bool(np.allclose(qn.sum(1), 1, atol=1e-5)))
    else:
        mon.true("simplex", not any(p is layer.q0 for p in layer.parameters()) and bool((layer.q0 == 0).all()), "uniform weights are not learned")
    mon.raises("refused", lambda: quiet(layer, torch.zeros(3, d + 1)) if idx % 2 else quiet(layer, torch.zeros(3, d + 1), None, torch.zeros(3, dtype=torch.int64)), ValueError, "feature dimension")


def energy(C1, C2, M, T, al):
    """direct four-index objective"""
    L = (C1[:, None, :, None] - C2[None, :, None, :]) ** 2
    return float((1 - al) * (M * T).sum() + al * np.einsum("ijkl,ij,kl->", L, T, T))


@core.family(FAMILIES, 160, weight=4)
def fused(mon, rng, idx):
    g = layers()
    d, K, m = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
    tr, multi = bool(rng.random() < 0.6), bool(rng.random() < 0.4)
    al = None if idx % 3 == 0 else float(gen.pick(rng, (0.5, 0.1, 0.9, 0.7)))
    end = idx % 11 == 4
    if end:
        al = float(gen.pick(rng, (0.0, 1.0)))
        mon.event("alpha-end")
    layer = g.TFGWPooling(d, K, m, alpha=al, train_node_weights=tr, multi_alpha=multi)
    F, q = set_params(layer, rng, d)
    with torch.no_grad():
        if al is None:
            mon.event("trained-alpha")
            layer.alpha0.copy_(torch.tensor(rng.normal(size=tuple(layer.alpha0.shape))))
    A = layer.tplt_adjacencies.detach().numpy().astype(float)
    alphas = np.broadcast_to(1 / (1 + np.exp(-layer.alpha0.detach().numpy().astype(float))), K) if al is None else np.full(K, al)
    if multi:
        mon.event("multi-alpha")
    gs = [graph(mon, rng, d, idx % 20 == 7) for _ in range(int(rng.integers(1, 4)))]
    mon.case(*[y for x in gs for y in (x[0], x[2])], F, q, A, alphas, tr=tr, multi=multi, fixed=al)
    mon.true("init", layer.tplt_adjacencies.shape == (K, m, m) and bool(np.allclose(A, A.transpose(0, 2, 1))) and bool((A >= 0).all() and (A <= 1).all()), "template adjacency")
    x, e, b = pack(mon, rng, gs)
    keep = [t.clone() for t in (x, e, b)]
    out = quiet(layer, x, e, b)
    mon.true("inputs-intact", all(torch.equal(u, v) for u, v in zip(keep, (x, e, b))))
    O = out.detach().numpy().astype(float)
    if not mon.true("tfgw", O.shape == (len(gs), K) and bool(np.isfinite(O).all())):
        return
    alone = np.stack([quiet(layer, torch.tensor(X), torch.tensor(E)).detach().numpy() for X, E, _ in gs]).astype(float)
    sc = 1 + np.abs(O).max()
    plans, same = {}, True
    for i, (X, _, C) in enumerate(gs):
        a = np.full(len(X), 1 / len(X))
        for j in range(K):
            M, aj = sq(X, F[j]), float(alphas[j])
            up = energy(C, A[j], M, np.outer(a, q[j]), aj) if len(X) < 12 else np.inf
            mon.le("tfgw-bound", O[i, j], up + 1e-4 * sc, "the product coupling")
            mon.le("tfgw-bound", (1 - aj) * oracles.lp_transport(a, q[j], M)[0], O[i, j] + 1e-4 * sc, "the linear part alone")
            if al == 0:
                mon.close("linear-end", O[i, j], oracles.lp_transport(a, q[j], M)[0], 1e-5 * sc, 1e-5, "alpha = 0")
            # the same local search in both precisions
            v64, l64 = quiet(ot.gromov.fused_gromov_wasserstein2, M, C, A[j], a, q[j], alpha=aj, symmetric=True, max_iter=50, log=True)
            c32 = [torch.tensor(y, dtype=torch.float32) for y in (C, a)]
            v32 = quiet(ot.gromov.fused_gromov_wasserstein2, ot.dist(torch.tensor(X), torch.tensor(F[j])), c32[0], torch.tensor(A[j], dtype=torch.float32), c32[1],
                        torch.softmax(layer.q0.detach(), 1)[j], alpha=torch.sigmoid(layer.alpha0.detach())[j if multi else 0], symmetric=True, max_iter=50)
            d64, d32 = abs(float(v64) - O[i, j]), abs(float(v32) - O[i, j])
            if al == 1:
                # without features (outside the documented range) the product coupling is a saddle point: only the bounds are decided
                same = False
                continue
            mon.le("tfgw", min(d64, d32), 2e-4 * sc, "graph %d template %d: %.6g, solver %.6g / %.6g" % (i, j, O[i, j], v64, v32))
            if len(X) < 12:
                T = np.asarray(l64["T"])
                mon.close("tfgw", energy(C, A[j], M, T, aj), float(v64), 1e-9 * sc, 1e-9, "objective at the plan")
                if d64 > 1e-4 * sc or oracles.marg_err(T, a, q[j]) > 1e-8:
                    same = False
                plans[i, j] = T
    if same:
        mon.close("tfgw-alone", alone, O, 3e-4 * sc, 0)
        o = rng.permutation(len(gs))
        p = quiet(layer, *pack(mon, rng, [gs[k] for k in o])).detach().numpy()
        dd = np.abs(p - O[o])
        # ties between equivalent nodes may be broken another way
        mon.true("order", bool((dd.max() < 3e-4 * sc)) or ties(gs, A), "batch order %g" % dd.max())
        X, E, _ = gs[0]
        o = rng.permutation(len(X))
        p = quiet(layer, torch.tensor(X[o]), torch.tensor(np.argsort(o)[E])).detach().numpy()
        mon.true("relabel", bool(np.abs(p - O[0]).max() < 3e-4 * sc) or ties(gs[:1], A), "node names %g" % np.abs(p - O[0]).max())
    mon.raises("refused", lambda: quiet(layer, torch.zeros(3, d + 1), torch.zeros((2, 0), dtype=torch.int64)) if idx % 2 else
               quiet(layer, torch.zeros(3, d + 1), torch.zeros((2, 0), dtype=torch.int64), torch.zeros(3, dtype=torch.int64)), ValueError, "feature dimension")
    if not same or len(plans) < len(gs) * K or end:
        return
    w = rng.normal(size=O.shape)
    x.requires_grad_(True)
    out = quiet(layer, x, e, b)
    mon.close("step", out.detach().numpy(), O, 1e-6 * sc, 0, "repeated call")
    (out * torch.tensor(w, dtype=torch.float32)).sum().backward()
    GF, GX, GA, Gal = np.zeros(F.shape), np.zeros(tuple(x.shape)), np.zeros(A.shape), np.zeros(K)
    bb, xs = b.numpy(), x.detach().numpy()
    gsb = [np.flatnonzero(bb == i) for i in range(len(gs))]
    for i, r in enumerate(gsb):
        X, _, C = gs[i]
        # rows of the batch in the order of this graph's own nodes
        perm = [int(k) for u in X for k in r if np.array_equal(xs[k], u)]
        if len(perm) != len(X):
            return
        for j in range(K):
            T, aj = plans[i, j], float(alphas[j])
            D = X[:, None].astype(float) - F[j][None]
            GX[perm] += w[i, j] * (1 - aj) * 2 * (T[:, :, None] * D).sum(1)
            GF[j] -= w[i, j] * (1 - aj) * 2 * (T[:, :, None] * D).sum(0)
            GA[j] += w[i, j] * aj * 2 * (A[j] * np.outer(q[j], q[j]) - T.T @ C @ T)
            Gal[j] += w[i, j] * (energy(C, A[j], sq(X, F[j]), T, 1.0) - (sq(X, F[j]) * T).sum()) * aj * (1 - aj)
    t = 2e-3 * (1 + np.abs(w).sum())
    mon.close("tfgw-grad", layer.tplt_features.grad.numpy(), GF, t, 1e-3, "template features")
    mon.close("tfgw-grad", x.grad.numpy(), GX, t, 1e-3, "node features")
    mon.close("tfgw-grad", layer.tplt_adjacencies.grad.numpy(), GA, t, 1e-3, "template adjacency")
    if al is None:
        mon.close("tfgw-grad", layer.alpha0.grad.numpy(), Gal if multi else [Gal.sum()], t * sc, 1e-3, "trade-off")
    else:
        mon.true("tfgw-grad", not any(p is layer.alpha0 for p in layer.parameters()), "a fixed trade-off is not learned")
    if tr:
        mon.true("tfgw-grad", bool(torch.isfinite(layer.q0.grad).all()), "node weights")
        # moving mass by h changes each distance by the gradient, up to the curvature
        z = layer.q0.detach().clone()
        gq = layer.q0.grad.detach().numpy().astype(float)
        v = rng.normal(size=z.shape)
        tot, base = [], None
        for s in (0.02, -0.02):
            qs = softmax(z.numpy().astype(float) + s * v)
            val = np.zeros(O.shape)
            for i, (X, _, C) in enumerate(gs):
                for j in range(K):
                    val[i, j] = quiet(ot.gromov.fused_gromov_wasserstein2, sq(X, F[j]), C, A[j], np.full(len(X), 1 / len(X)), qs[j], alpha=float(alphas[j]),
                                      symmetric=True, G0=None, max_iter=200)
            tot.append(val)
        l, r = (w * (O - tot[1])).sum() / 0.02, (w * (tot[0] - O)).sum() / 0.02
        c = (w * (tot[0] - tot[1])).sum() / 0.04
        if abs(l - r) < 0.05 * (1 + abs(c)):
            mon.close("tfgw-grad", float((gq * v).sum()), c, 0.05 * sc + abs(l - r), 0.05, "node weights")
    torch.optim.SGD(layer.parameters(), lr=0.1).step()
    qn = layer.softmax(layer.q0).detach().numpy()
    mon.true("simplex", bool((qn >= 0).all()) and bool(np.allclose(qn.sum(1), 1, atol=1e-5)))
    an = torch.sigmoid(layer.alpha0.detach()).numpy()
    mon.true("simplex", bool((an >= 0).all() and (an <= 1).all()), "trade-off in [0, 1]")


def ties(gs, A):
    """structures where several couplings are equivalent to the search"""
    for _, _, C in gs:
        n = len(C)
        for i in range(n):
            for j in range(i):
                if np.array_equal(np.delete(C[i], [i, j]), np.delete(C[j], [i, j])):
                    return True
    return False
