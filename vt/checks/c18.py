"""Gromov-Wasserstein barycenters and dictionaries.  Exact, entropic and semi-relaxed (fused)
barycenters run under every combination of sizes, weights, losses, fixed blocks, stopping rules and
initialisations; the plans they log are checked against the marginals, and the returned structure
and features must be the exact block minimiser of the weighted objective at those plans (its
gradient vanishes, computed from the plans alone).  The logged loss is recomputed by brute force,
may not increase with warm-started plans, and stopping before the budget needs every free block to
be below the tolerance.  Unmixing is checked for the simplex, the reconstruction, the truthful
loss, descent from its documented start and (convex case) optimality of the weights given the plan
up to the Frank-Wolfe certificate of its own tolerance; one dictionary step is compared with finite
differences of the brute-force loss."""

import itertools
import warnings

import numpy as np

import ot
from vt import core, gen, gw, oracles
from vt.checks.c15 import quiet

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("shape", "symmetric", "marginals", "structure-update", "feature-update", "fixed", "loss", "descent", "stop",
            "vanishing-weight", "simplex", "reconstruction", "truthful-loss", "unmixing-descent", "weights-optimal",
            "dictionary-step", "projection", "epoch-loss", "unmutated", "cost-matrices")
REQUIRED_EVENTS = ("exact", "entropic", "semirelaxed", "warm-descent", "converged", "asymmetric", "kl", "fixed-features", "fixed-structure")


def structures(rng, S, loss, symmetric, top):
    return [gw.structure(rng, n, loss, symmetric, top) for n in rng.integers(2, 6, S)]


def lam(rng, S):
    k = int(rng.integers(4))
    if k == 0:
        return None
    w = rng.gamma(1.0, size=S) + 0.05
    w = w / w.sum()
    return list(w) if k == 1 else w


def gw_cost(L, T):
    return gw.value(L, T)


def objective(P, C, X, Ts):
    """sum_s lambda_s [alpha GW + (1 - alpha) <dist(X, Y_s), T_s>], plans stored barycenter-first."""
    v = 0.0
    for s in range(P["S"]):
        a, b = (C, P["Cs"][s]) if P["first"] else (P["Cs"][s], C)
        T = Ts[s] if P["first"] else Ts[s].T
        i, j = T.sum(1) > 0, T.sum(0) > 0  # nodes without mass do not count
        g = gw_cost(gw.pair_loss(a[np.ix_(i, i)], b[np.ix_(j, j)], P["loss"]), T[np.ix_(i, j)])
        if P["fused"]:
            M = ((X[:, None] - P["Ys"][s][None]) ** 2).sum(-1)
            g = P["alpha"] * g + (1 - P["alpha"]) * float(np.sum(M * Ts[s]))
        v += P["lam"][s] * g
    return v


def updates(mon, P, C, X, Ts, tol, free_C, free_X, sym_in):
    """The returned blocks minimise the objective given the plans."""
    lamb = P["lam"]
    ms = [T.sum(1) for T in Ts]
    W = sum(l * np.outer(m, m) for l, m in zip(lamb, ms))
    if free_C:
        if P["loss"] == "kl_loss" and P["first"]:
            num = sum(l * T @ np.log(np.maximum(Cs, 1e-16)) @ T.T for l, T, Cs in zip(lamb, Ts, P["Cs"]))
            with np.errstate(divide="ignore", invalid="ignore"):
                got = W * np.log(C)
        else:
            num = sum(l * T @ Cs @ T.T for l, T, Cs in zip(lamb, Ts, P["Cs"]))
            got = W * C
        keep = W > 0
        top = 1 + max(np.abs(c).max() for c in P["Cs"]) + (3 if P["loss"] == "kl_loss" else 0)
        mon.close("structure-update", (got / np.where(keep, W, 1))[keep], (num / np.where(keep, W, 1))[keep], (1e-9 + tol / max(1e-3, W[keep].min() ** .5)) * top, 1e-8)
        if sym_in:
            mon.close("symmetric", C, C.T, (1e-9 + tol / max(1e-3, W[keep].min() ** .5)) * top, 1e-9)
    if free_X:
        w = sum(l * m for l, m in zip(lamb, ms))
        keep = w > 0
        num = sum(l * T @ Y for l, T, Y in zip(lamb, Ts, P["Ys"]))
        top = 1 + max(np.abs(y).max() for y in P["Ys"])
        mon.close("feature-update", X[keep], num[keep] / w[keep, None], (1e-9 + tol / w[keep].min()) * top, 1e-8)


def setup(mon, rng, first):
    P = dict(first=first, fused=bool(rng.random() < 0.55), S=int(rng.integers(1, 4)), N=int(rng.integers(1, 6)),
             loss=gen.pick(rng, ("square_loss", "square_loss", "kl_loss")), alpha=float(gen.pick(rng, (0.2, 0.5, 0.9))))
    P["symmetric"] = bool(rng.random() < 0.7)
    top = float(gen.pick(rng, (1.0, 1.0, 20.0)))
    P["Cs"] = structures(rng, P["S"], P["loss"], P["symmetric"], top)
    P["top"] = top
    P["ps"] = [gen.weights(rng, len(c), gen.pick(rng, ("uniform", "dirichlet", "dyadic"))) for c in P["Cs"]]
    P["p"] = gen.weights(rng, P["N"], gen.pick(rng, ("uniform", "dirichlet", "dyadic")))
    d = int(rng.integers(1, 3))
    P["Ys"] = [gen.points(rng, len(c), d) * 2 for c in P["Cs"]]
    P["lambdas"] = lam(rng, P["S"])
    P["lam"] = np.full(P["S"], 1.0 / P["S"]) if P["lambdas"] is None else np.asarray(P["lambdas"])
    P["init_C"] = gw.structure(rng, P["N"], P["loss"], P["symmetric"], top)
    P["init_X"] = rng.normal(size=(P["N"], d))
    P["fixed"] = gen.pick(rng, ("none", "none", "C", "X")) if P["fused"] else "none"
    P["give_C"] = bool(rng.random() < 0.6) or P["fixed"] == "C"
    P["give_X"] = bool(rng.random() < 0.5) or P["fixed"] == "X"
    P["stop"] = gen.pick(rng, ("barycenter", "loss"))
    P["warm"] = bool(rng.random() < 0.6)
    P["max_iter"] = int(gen.pick(rng, (1, 2, 5, 60)))
    P["tol"] = float(gen.pick(rng, (1e-9, 1e-5)))
    if not P["symmetric"]:
        mon.event("asymmetric")
    if P["loss"] == "kl_loss":
        mon.event("kl")
    return P


def describe(mon, P, **kw):
    mon.case(*P["Cs"], *P["ps"], *P["Ys"], P["p"], P["lam"], P["init_C"], P["init_X"], **{
        k: P[k] for k in ("fused", "S", "N", "loss", "alpha", "symmetric", "top", "fixed", "give_C", "give_X", "stop", "warm", "max_iter", "tol")}, **kw)


def common(mon, P, C, X, log, tol, monotone, init_known):
    N = P["N"]
    Ts = [t if P["first"] else t.T for t in log["T"]]
    mon.true("shape", C.shape == (N, N) and bool(np.isfinite(C).all()) and (X is None or X.shape == P["init_X"].shape and bool(np.isfinite(X).all())))
    mon.true("shape", len(Ts) == P["S"] and all(t.shape == (N, len(c)) for t, c in zip(Ts, P["Cs"])))
    free_C, free_X = P["fixed"] != "C", P["fused"] and P["fixed"] != "X"
    if not free_C:
        mon.event("fixed-structure")
        mon.close("fixed", C, P["init_C"], 0, 0, "structure")
    if P["fixed"] == "X":
        mon.event("fixed-features")
        mon.close("fixed", X, P["init_X"], 0, 0, "features")
    updates(mon, P, C, X, Ts, tol, free_C, free_X, P["symmetric"])
    if P["fused"]:
        for s in range(P["S"]):
            M = ((X[:, None] - P["Ys"][s][None]) ** 2).sum(-1)
            mon.close("cost-matrices", log["Ms"][s] if P["first"] else log["Ms"][s].T, M, 1e-9 * (1 + M.max()), 1e-9)
    # stopping
    if P["stop"] == "barycenter":
        hist = list(zip(log["err_feature"], log["err_structure"])) if P["fused"] else [(0.0, e) for e in log["err"]]
    else:
        hist = [(0.0, e) for e in log["err_rel_loss" if P["fused"] else "err"]]
    mon.true("stop", 1 <= len(hist) <= P["max_iter"], "%d iterations of %d" % (len(hist), P["max_iter"]))
    if len(hist) < P["max_iter"]:
        if P["stop"] != "loss" or np.isfinite(float(hist[-1][1])):
            mon.event("converged")
            mon.le("stop", max(float(v) for v in hist[-1]), P["tol"], "a free block was still moving")
    for h in hist[:-1]:
        mon.true("stop", not all(float(v) <= P["tol"] for v in h), "went on after convergence")
    # losses
    final = objective(P, C, X, Ts)
    scale = 1 + P["top"] ** (2 if P["loss"] == "square_loss" else 1) * 4 + (30 if P["fused"] else 0)
    if P["stop"] == "loss":
        losses = [float(v) for v in log["loss"]]
        # the blocks were updated after the plans
        mon.le("descent", final, losses[-1] + 1e-7 * scale + 20 * tol * scale, "final blocks above the last logged loss")
        if init_known and len(losses) == 1:
            start = objective(P, P["init_C"], P["init_X"], Ts)
            mon.close("loss", losses[0], start, (1e-7 + 20 * tol) * scale, 1e-7)
        if len(losses) == 1 and not free_C and not free_X:
            mon.close("loss", losses[0], final, (1e-7 + 20 * tol) * scale, 1e-7)
        if monotone:
            mon.event("warm-descent")
            for a, b in zip(losses, losses[1:]):
                mon.le("descent", b, a + 1e-7 * scale, "logged loss")
    return Ts, final


@core.family(FAMILIES, 160, weight=3)
def balanced(mon, rng, idx):
    P = setup(mon, rng, True)
    if P["loss"] == "kl_loss" and not P["give_C"]:
        P["give_C"] = True
    entropic = bool(rng.random() < 0.45)
    mon.event("entropic" if entropic else "exact")
    kw = dict(ps=P["ps"], p=P["p"], lambdas=P["lambdas"], loss_fun=P["loss"], symmetric=P["symmetric"], max_iter=P["max_iter"], tol=P["tol"],
              stop_criterion=P["stop"], warmstartT=P["warm"], log=True, random_state=int(idx))
    if rng.random() < 0.3:
        for k in ("ps", "p"):
            kw.pop(k)
        P["ps"] = [np.ones(len(c)) / len(c) for c in P["Cs"]]
        P["p"] = np.ones(P["N"]) / P["N"]
    if P["give_C"]:
        kw["init_C"] = P["init_C"].copy()
    if P["give_X"] and P["fused"]:
        kw["init_Y" if entropic else "init_X"] = P["init_X"].copy()
    if not entropic and rng.random() < 0.2:
        kw["armijo"] = True
    if entropic:
        c = P["top"] ** 2 * 4 if P["loss"] == "square_loss" else P["top"] * 8
        kw["epsilon"] = float(c * 10 ** rng.uniform(-1, 0.5) + (20 if P["fused"] else 0))
        P["max_iter"] = kw["max_iter"] = min(P["max_iter"], 20)
    describe(mon, P, entropic=entropic, epsilon=kw.get("epsilon"))
    if P["fused"]:
        f = ot.gromov.entropic_fused_gromov_barycenters if entropic else ot.gromov.fgw_barycenters
        X, C, log = quiet(f, P["N"], P["Ys"], P["Cs"], alpha=P["alpha"], fixed_structure=P["fixed"] == "C", fixed_features=P["fixed"] == "X", **kw)
    else:
        f = ot.gromov.entropic_gromov_barycenters if entropic else ot.gromov.gromov_barycenters
        C, log = quiet(f, P["N"], P["Cs"], **kw)
        X = None
    err = max(oracles.marg_err(T, P["p"], q) for T, q in zip(log["T"], P["ps"]))
    if entropic and err > 1e-6:
        mon.event("inner-budget")
        return
    mon.le("marginals", err, 1e-6 if entropic else 1e-9)
    mon.true("marginals", all(bool(np.all(T >= 0)) for T in log["T"]), "negative mass")
    common(mon, P, C, X, log, 0.0 if not entropic else 4 * err, P["warm"] and not entropic and "armijo" not in kw,
           "init_C" in kw and (not P["fused"] or P["give_X"]))
    # a space of weight zero has no influence
    if P["S"] > 1 and rng.random() < 0.3 and P["stop"] == "barycenter":
        z = np.zeros(P["S"])
        z[0] = 1.0
        kw2 = dict(kw, lambdas=z, log=False)
        one = dict(kw2, lambdas=[1.0])
        if "ps" in kw:
            one["ps"] = P["ps"][:1]
        if P["fused"]:
            ex = dict(alpha=P["alpha"], fixed_structure=P["fixed"] == "C", fixed_features=P["fixed"] == "X")
            A = quiet(f, P["N"], P["Ys"], P["Cs"], **ex, **kw2)
            B = quiet(f, P["N"], P["Ys"][:1], P["Cs"][:1], **ex, **one)
            A, B = np.concatenate([a.ravel() for a in A]), np.concatenate([b.ravel() for b in B])
        else:
            A, B = quiet(f, P["N"], P["Cs"], **kw2), quiet(f, P["N"], P["Cs"][:1], **one)
        mon.close("vanishing-weight", A, B, 1e-9 * (1 + np.abs(B).max()), 1e-9)


@core.family(FAMILIES, 140, weight=3)
def semirelaxed(mon, rng, idx):
    mon.event("semirelaxed")
    P = setup(mon, rng, False)
    if P["loss"] == "kl_loss" and not P["give_C"] and P["top"] < 1:
        P["give_C"] = True
    G0 = gen.pick(rng, ("product", "random_product", "random", "random", "kmeans", "kmeans_soft", "spectral", "spectral_soft", "fluid", "fluid_soft"))
    simple = G0 in ("product", "random_product", "random")
    if not simple:
        # the partition methods need an affinity without empty rows
        P["symmetric"] = True
        P["Cs"] = [np.abs(gw.structure(rng, len(c), P["loss"], True, P["top"])) + 0.1 * P["top"] for c in P["Cs"]]
        P["N"] = N = int(rng.integers(2, 5))
        P["init_C"] = np.abs(gw.structure(rng, N, P["loss"], True, P["top"])) + 0.1 * P["top"]
        P["init_X"] = rng.normal(size=(N, P["init_X"].shape[1]))
        if N > min(len(c) for c in P["Cs"]):
            G0 = G0.replace("fluid", "kmeans")  # would partition the barycenter, which fluid needs connected
        if sum(len(c) for c in P["Cs"]) < N:
            P["give_X"] = True  # fewer nodes than clusters to initialise the features with
    kw = dict(ps=P["ps"], lambdas=P["lambdas"], loss_fun=P["loss"], symmetric=P["symmetric"], max_iter=P["max_iter"], tol=P["tol"],
              stop_criterion=P["stop"], warmstartT=P["warm"], log=True, random_state=int(idx), G0=G0)
    if P["give_C"]:
        kw["init_C"] = P["init_C"].copy()
    if P["give_X"] and P["fused"]:
        kw["init_X"] = P["init_X"].copy()
    describe(mon, P, G0=G0)
    if P["fused"]:
        X, C, log = quiet(ot.gromov.semirelaxed_fgw_barycenters, P["N"], P["Ys"], P["Cs"], alpha=P["alpha"], fixed_structure=P["fixed"] == "C",
                          fixed_features=P["fixed"] == "X", **kw)
    else:
        C, log = quiet(ot.gromov.semirelaxed_gromov_barycenters, P["N"], P["Cs"], **kw)
        X = None
    mon.le("marginals", max(float(np.abs(T.sum(1) - p).max()) for T, p in zip(log["T"], P["ps"])), 1e-9)
    mon.true("marginals", all(bool(np.all(T >= -1e-15)) for T in log["T"]), "negative mass")
    common(mon, P, C, X, log, 0.0, P["warm"], "init_C" in kw and (not P["fused"] or P["give_X"]))


def unmix_opt(Q, c):
    """min w.Q.w - 2 c.w over the simplex by enumerating supports (convex)."""
    n, best = len(c), np.inf
    for k in range(1, n + 1):
        for s in itertools.combinations(range(n), k):
            s = list(s)
            K = np.zeros((k + 1, k + 1))
            K[:k, :k] = 2 * Q[np.ix_(s, s)]
            K[:k, k] = K[k, :k] = 1
            w = np.linalg.lstsq(K, np.r_[2 * c[s], 1], rcond=None)[0][:k]
            if w.min() < -1e-12 or abs(w.sum() - 1) > 1e-9:
                continue
            best = min(best, float(w @ Q[np.ix_(s, s)] @ w - 2 * c[s] @ w))
    return best


@core.family(FAMILIES, 200)
def unmixing(mon, rng, idx):
    fused = bool(rng.random() < 0.5)
    sym = bool(rng.random() < 0.6)
    n, nt, D, d = (int(rng.integers(1, 7)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 3)))
    C = gw.structure(rng, n, "square_loss", sym)
    Cd = np.stack([gw.structure(rng, nt, "square_loss", sym) for _ in range(D)])
    if rng.random() < 0.2:
        Cd[-1] = Cd[0]
    Y, Yd = gen.points(rng, n, d), rng.normal(size=(D, nt, d))
    p, q = gen.weights(rng, n, gen.pick(rng, ("uniform", "dirichlet", "dyadic"))), gen.weights(rng, nt, gen.pick(rng, ("uniform", "dirichlet", "dyadic")))
    alpha = float(gen.pick(rng, (0.2, 0.5, 0.9)))
    reg = float(gen.pick(rng, (0.0, 0.0, 0.01, 1.0)))
    kw = dict(reg=reg, p=p, q=q, max_iter_outer=int(gen.pick(rng, (1, 3, 20))), max_iter_inner=int(gen.pick(rng, (1, 5, 2000))),
              tol_inner=float(gen.pick(rng, (1e-5, 1e-13))), tol_outer=1e-9, symmetric=gen.pick(rng, (sym, None)) if not fused else sym)
    mon.case(C, Cd, Y, Yd, p, q, fused=fused, sym=sym, alpha=alpha, reg=reg, n=n, nt=nt, D=D, kw=str({k: kw[k] for k in ("max_iter_outer", "max_iter_inner", "tol_inner", "symmetric")}))
    if not sym:
        mon.event("asymmetric")
    Cd0, Yd0 = Cd.copy(), Yd.copy()
    if fused:
        w, Ce, Ye, T, loss = quiet(ot.gromov.fused_gromov_wasserstein_linear_unmixing, C, Y, Cd, Yd, alpha, **kw)
        mon.close("reconstruction", Ye, np.einsum("k,kij->ij", w, Yd), 1e-9, 1e-9)
    else:
        w, Ce, T, loss = quiet(ot.gromov.gromov_wasserstein_linear_unmixing, C, Cd, **kw)
        alpha = 1.0
    mon.true("unmutated", bool(np.array_equal(Cd, Cd0) and np.array_equal(Yd, Yd0)))
    mon.true("simplex", w.shape == (D,) and bool(np.all(w >= -1e-12)), str(w))
    mon.close("simplex", float(w.sum()), 1.0, 1e-9)
    mon.close("reconstruction", Ce, np.einsum("k,kij->ij", w, Cd), 1e-9, 1e-9)
    mon.le("marginals", oracles.marg_err(T, p, q), 1e-9)

    def obj(w, T):
        Ce, Ye = np.einsum("k,kij->ij", w, Cd), np.einsum("k,kij->ij", w, Yd)
        v = alpha * gw.value(gw.pair_loss(C, Ce, "square_loss"), T) - reg * float(w @ w)
        if fused:
            v += (1 - alpha) * float(np.sum(T * ((Y[:, None] - Ye[None]) ** 2).sum(-1)))
        return v

    s = 4.0 + reg + (float(np.abs(Y).max() + np.abs(Yd).max()) ** 2 * d if fused else 0)
    mon.close("truthful-loss", float(loss), obj(w, T), 1e-8 * s, 1e-8)
    start = obj(np.ones(D) / D, np.outer(p, q))
    mon.le("unmixing-descent", float(loss), start + 1e-8 * s)
    # weights given the plan: quadratic form Q, linear term c
    A = np.einsum("kij,lij,i,j->kl", Cd, Cd, q, q) * alpha
    c = alpha * np.einsum("kij,ij->k", Cd, T.T @ C @ T)
    if fused:
        A = A + (1 - alpha) * np.einsum("kid,lid,i->kl", Yd, Yd, q)
        c = c + (1 - alpha) * np.einsum("kid,id->k", Yd, T.T @ Y)
    Q = A - reg * np.eye(D)
    # convexity on the simplex' tangent space
    B = np.eye(D) - 1.0 / D
    if np.linalg.eigvalsh(B @ Q @ B).min() >= -1e-12 and kw["max_iter_inner"] == 2000:
        curv = max([float((np.eye(D)[i] - np.eye(D)[j]) @ Q @ (np.eye(D)[i] - np.eye(D)[j])) for i in range(D) for j in range(D)])
        delta = kw["tol_inner"] * (abs(obj(w, T)) + 1e-2 * s)  # the relative test uses the previous loss
        bound = max(2 * delta, 2 * np.sqrt(max(curv, 0) * delta), 4 * curv / 2000)
        best = unmix_opt(Q, c)
        mon.le("weights-optimal", float(w @ Q @ w - 2 * c @ w) - best, 2 * bound + 1e-9 * s)


@core.family(FAMILIES, 60, weight=2)
def dictionary(mon, rng, idx):
    fused = bool(rng.random() < 0.5)
    sym = bool(rng.random() < 0.6)
    S, nt, D, d = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    Cs = [gw.structure(rng, int(n), "square_loss", sym) for n in rng.integers(2, 5, S)]
    Ys = [gen.points(rng, len(c), d) for c in Cs]
    ps = [gen.weights(rng, len(c), gen.pick(rng, ("uniform", "dirichlet"))) for c in Cs]
    q = gen.weights(rng, nt, gen.pick(rng, ("uniform", "dirichlet")))
    Cd = np.stack([gw.structure(rng, nt, "square_loss", sym) for _ in range(D)])
    Yd = rng.normal(size=(D, nt, d))
    alpha, reg, lr = float(gen.pick(rng, (0.2, 0.5, 0.9))), float(gen.pick(rng, (0.0, 0.01))), float(gen.pick(rng, (0.1, 1.0)))
    mon.case(*Cs, *Ys, *ps, q, Cd, Yd, fused=fused, sym=sym, S=S, nt=nt, D=D, alpha=alpha, reg=reg, lr=lr)
    proj = "symmetric" if sym else ""
    kw = dict(reg=reg, ps=ps, q=q, epochs=1, batch_size=int(gen.pick(rng, (S, 32))), projection=proj, use_log=True, max_iter_outer=5, max_iter_inner=50,
              use_adam_optimizer=False, random_state=int(idx), Cdict_init=Cd)
    un = dict(reg=reg, q=q, max_iter_outer=5, max_iter_inner=50, symmetric=sym)
    Cd0, Yd0 = Cd.copy(), Yd.copy()
    if fused:
        gotC, gotY, log = quiet(ot.gromov.fused_gromov_wasserstein_dictionary_learning, Cs, Ys, D, nt, alpha, learning_rate_C=lr, learning_rate_Y=2 * lr, Ydict_init=Yd, **kw)
        sol = [quiet(ot.gromov.fused_gromov_wasserstein_linear_unmixing, C, Y, Cd, Yd, alpha, p=p, **un) for C, Y, p in zip(Cs, Ys, ps)]
    else:
        gotC, log = quiet(ot.gromov.gromov_wasserstein_dictionary_learning, Cs, D, nt, learning_rate=lr, **kw)
        sol = [quiet(ot.gromov.gromov_wasserstein_linear_unmixing, C, Cd, p=p, **un) for C, p in zip(Cs, ps)]
        alpha = 1.0
    mon.true("unmutated", bool(np.array_equal(Cd, Cd0) and np.array_equal(Yd, Yd0)))
    total = sum(float(x[-1]) for x in sol)
    mon.close("epoch-loss", float(log["loss_epochs"][0]), total, 1e-8, 1e-8)

    def mean_loss(v):
        c, y = v[:Cd.size].reshape(Cd.shape), v[Cd.size:].reshape(Yd.shape)
        t = 0.0
        for C, Y, x in zip(Cs, Ys, sol):
            w, T = x[0], x[-2]
            t += alpha * gw.value(gw.pair_loss(C, np.einsum("k,kij->ij", w, c), "square_loss"), T)
            if fused:
                t += (1 - alpha) * float(np.sum(T * ((Y[:, None] - np.einsum("k,kij->ij", w, y)[None]) ** 2).sum(-1)))
        return t / S

    v0 = np.r_[Cd.ravel(), Yd.ravel()]
    g = np.array([(mean_loss(v0 + e) - mean_loss(v0 - e)) / 2e-2 for e in 1e-2 * np.eye(len(v0))])  # quadratic: exact
    gC, gY = g[:Cd.size].reshape(Cd.shape), g[Cd.size:].reshape(Yd.shape)
    mon.close("dictionary-step", gotC, Cd - lr * gC, 1e-8 * (1 + lr), 1e-8, "structures")
    if fused:
        mon.close("dictionary-step", gotY, Yd - 2 * lr * gY, 1e-8 * (1 + lr), 1e-8, "features")
    # constraints through several (Adam) steps, small batches, random start
    proj = gen.pick(rng, ("nonnegative_symmetric", "nonnegative", "symmetric")) if sym else "nonnegative"
    kw.update(epochs=2, batch_size=int(rng.integers(1, S + 1)), projection=proj, use_adam_optimizer=bool(rng.random() < 0.7), max_iter_outer=2)
    kw["Cdict_init"] = None if rng.random() < 0.5 else Cd
    if fused:
        c, y, log = quiet(ot.gromov.fused_gromov_wasserstein_dictionary_learning, Cs, Ys, D, nt, alpha, learning_rate_C=lr, learning_rate_Y=lr, **kw)
        mon.true("projection", y.shape == (D, nt, d) and bool(np.isfinite(y).all()))
    else:
        c, log = quiet(ot.gromov.gromov_wasserstein_dictionary_learning, Cs, D, nt, learning_rate=lr, **kw)
    mon.true("projection", c.shape == (D, nt, nt) and bool(np.isfinite(c).all()))
    if "nonnegative" in proj:
        mon.true("projection", bool(np.all(c >= 0)), "negative entries")
    if "symmetric" in proj:
        mon.close("projection", c, c.transpose(0, 2, 1), 1e-12, 1e-12)
    nb = -(-S // kw["batch_size"])
    mon.true("epoch-loss", len(log["loss_epochs"]) == 2 and len(log["loss_batches"]) == 2 * nb)
    mon.close("epoch-loss", float(sum(log["loss_epochs"])), float(sum(log["loss_batches"])), 1e-9, 1e-9)
