"""CO-Optimal Transport (balanced, unbalanced) and fused unbalanced Gromov-Wasserstein.  Reported
costs are recomputed from the documented formula at the returned plans with brute-force four-index
sums and divergences written out on the product measures.  The balanced block-coordinate history
must descend, stay feasible, start below the initialisation, and each block must be optimal given
the other (independent linear program / entropic conditions).  For unbalanced problems each block
is convex given the other, so its KKT residual (gradients of the brute-force objective) must
vanish at convergence, and the objective must not increase along the alternations."""

import numpy as np

import ot
import ot.coot
from vt import core, gen, gw, oracles
from vt.checks.c15 import coupling, quiet
from vt.checks.c16 import entropic_plan

FAMILIES = {}
BACKENDS = ()
REQUIRED = ("feasible", "value", "descent", "start", "block-optimal", "permutation", "ucoot-cost", "ucoot-linear", "fugw-cost",
            "nonnegative", "kkt", "ucoot-descent")
REQUIRED_EVENTS = ("entropic", "exact", "warmstart", "kl", "l2", "pair-epsilon", "converged")


def data(mon, rng, top=6):
    n, d, m, e = (int(rng.integers(1, top)) for _ in range(4))
    s = float(10 ** rng.uniform(-1, 0.5))
    kind = int(rng.integers(3))
    X, Y = rng.normal(size=(n, d)) * s, rng.normal(size=(m, e)) * s
    if kind == 1:
        X, Y = np.round(X * 2) / 2, np.round(Y * 2) / 2
    if kind == 2:
        X, Y = np.abs(X), np.abs(Y) + 0.2
    return X, Y, n, d, m, e


def full(X, Y):
    return (X[:, :, None, None] - Y[None, None]) ** 2      # i k j l


def brute(L, P, Q):
    return float(np.einsum("ikjl,ij,kl->", L, P, Q, optimize=True))


def kl(p, q):
    """generalised Kullback-Leibler divergence (with the mass terms)"""
    p, q = np.ravel(p), np.ravel(q)
    return float(np.sum(p[p > 0] * np.log(p[p > 0] / q[p > 0])) - p.sum() + q.sum())


def half(p, q):
    return 0.5 * float(np.sum((np.ravel(p) - np.ravel(q)) ** 2))


@core.family(FAMILIES, 350, weight=2)
def balanced(mon, rng, idx):
    X, Y, n, d, m, e = data(mon, rng)
    ws = gen.weights(rng, n, positive=True), gen.weights(rng, m, positive=True)
    wf = gen.weights(rng, d, positive=True), gen.weights(rng, e, positive=True)
    L = full(X, Y)
    s = float(L.max()) + 1e-3
    eps = gen.pick(rng, (0, 0, float(s * 10 ** rng.uniform(-1.3, 0.5)), tuple(float(s * 10 ** rng.uniform(-1.3, 0.5)) for _ in range(2)),
                         (0, float(s * 10 ** rng.uniform(-1, 0.5))), (float(s * 10 ** rng.uniform(-1, 0.5)), 0)))
    es, ef = eps if isinstance(eps, tuple) else (eps, eps)
    mon.event("exact" if es == ef == 0 else "entropic")
    if isinstance(eps, tuple):
        mon.event("pair-epsilon")
    al = gen.pick(rng, (0, 0.5, (0.3, 1.5), (0, 2)))
    As, Af = al if isinstance(al, tuple) else (al, al)
    Ms, Mf = rng.random((n, m)) * s, rng.random((d, e)) * s
    if rng.random() < 0.2:
        Ms, As = None, 0
    its = int(gen.pick(rng, (1, 2, 100)))
    kw = dict(epsilon=eps, alpha=al, M_samp=Ms, M_feat=Mf, nits_bcd=its, tol_bcd=1e-12, early_stopping_tol=-1.0 if rng.random() < 0.5 else 1e-6,
              nits_ot=20000, tol_sinkhorn=1e-12, method_sinkhorn=gen.pick(rng, ("sinkhorn", "sinkhorn_log")))
    P0, Q0 = np.outer(*ws), np.outer(*wf)
    if rng.random() < 0.3:
        P0, Q0 = coupling(rng, *ws), coupling(rng, *wf)
        kw["warmstart"] = dict(pi_sample=P0.copy(), pi_feature=Q0.copy(), duals_sample=(np.zeros(n), np.zeros(m)),
                               duals_feature=(np.zeros(d), np.zeros(e)))
        mon.event("warmstart")
    mon.case(X, Y, *ws, *wf, n=n, d=d, m=m, e=e, eps=str(eps), al=str(al), its=its, nontrivial=n * d * m * e > 1)
    W = (ws[0], wf[0], ws[1], wf[1])
    P, Q, log = quiet(ot.coot.co_optimal_transport, X, Y, *W, log=True, **kw)
    v2 = quiet(ot.coot.co_optimal_transport2, X, Y, *W, **kw)
    S = s + es + ef + As * s + Af * s

    def obj(P, Q):
        v = brute(L, P, Q) + (As * float(np.sum(Ms * P)) if As else 0.0) + (Af * float(np.sum(Mf * Q)) if Af else 0.0)
        return v + (es * kl(P, np.outer(*ws)) if es else 0.0) + (ef * kl(Q, np.outer(*wf)) if ef else 0.0)

    ok = max(oracles.marg_err(P, *ws), oracles.marg_err(Q, *wf))
    mon.true("nonnegative", bool(np.all(P >= 0) and np.all(Q >= 0)))
    if ok > 1e-8 and (es or ef):
        mon.event("sinkhorn-budget")
        return
    mon.le("feasible", ok, 1e-8)
    mon.close("value", float(log["distances"][-1]), obj(P, Q), 1e-6 * S, 1e-6)
    mon.close("value", float(v2), float(log["distances"][-1]), 1e-9 * S, 1e-9)
    h = np.array([float(x) for x in log["distances"]])
    mon.le("descent", float(np.max(np.diff(h), initial=-np.inf)), 1e-6 * S)
    mon.le("start", h[0] - obj(P0, Q0), 1e-6 * S, "first alternation against the initialisation")
    # the features are optimal for the samples of the last alternation
    D = np.einsum("ikjl,ij->kl", L, P) + (Af * Mf if Af else 0)
    if ef == 0:
        mon.le("block-optimal", float(np.sum(D * Q)) - oracles.lp_transport(*wf, D)[0], 1e-7 * S)
    else:
        R = entropic_plan(*wf, D, ef)
        if R is not None:
            mon.close("block-optimal", Q, R, 1e-6, 0)
    if its == 1:
        D = np.einsum("ikjl,kl->ij", L, Q0) + (As * Ms if As else 0)
        if es == 0:
            mon.le("block-optimal", float(np.sum(D * P)) - oracles.lp_transport(*ws, D)[0], 1e-7 * S)
        else:
            R = entropic_plan(*ws, D, es)
            if R is not None:
                mon.close("block-optimal", P, R, 1e-6, 0)


@core.family(FAMILIES, 200)
def permuted(mon, rng, idx):
    n, d, m, e = (int(rng.integers(2, 6)) for _ in range(4))
    X, Y = rng.normal(size=(n, d)), rng.normal(size=(m, e))
    W = [rng.dirichlet(np.ones(k) * 3) for k in (n, d, m, e)]
    eps = gen.pick(rng, (0, 0, float(10 ** rng.uniform(-0.5, 0.5))))
    kw = dict(epsilon=eps, nits_bcd=1, nits_ot=20000, tol_sinkhorn=1e-12, log=True)
    i, k, j, l = (rng.permutation(t) for t in (n, d, m, e))
    mon.case(X, Y, *W, eps=eps, nontrivial=True)
    P, Q, g = quiet(ot.coot.co_optimal_transport, X, Y, *W, **kw)
    P2, Q2, g2 = quiet(ot.coot.co_optimal_transport, X[np.ix_(i, k)], Y[np.ix_(j, l)], W[0][i], W[1][k], W[2][j], W[3][l], **kw)
    mon.close("permutation", P2, P[np.ix_(i, j)], 1e-6)
    mon.close("permutation", Q2, Q[np.ix_(k, l)], 1e-6)
    mon.close("permutation", float(g2["distances"][-1]), float(g["distances"][-1]), 1e-7)
    if rng.random() < 0.5:
        # a permuted copy started at the permutation costs nothing
        ws = np.zeros((n, n))
        ws[np.arange(n), np.argsort(i)] = W[0]
        wf = np.zeros((d, d))
        wf[np.arange(d), np.argsort(k)] = W[1]
        warm = dict(pi_sample=ws, pi_feature=wf, duals_sample=(np.zeros(n),) * 2, duals_feature=(np.zeros(d),) * 2)
        v = quiet(ot.coot.co_optimal_transport2, X, X[np.ix_(i, k)], W[0], W[1], W[0][i], W[1][k], warmstart=warm)
        mon.close("permutation", float(v), 0.0, 1e-9)


class Relaxed:
    def __init__(self, rng, X, Y, ws, wf, rho, eps, joint, div, al, Ms, Mf):
        self.__dict__.update(locals())
        self.L = full(X, Y)
        self.D = kl if div == "kl" else half

    def linear(self, P, Q):
        return brute(self.L, P, Q)

    def cost(self, P, Q):
        (a, b), (c, d) = self.ws, self.wf
        v = self.linear(P, Q)
        if self.Ms is not None:
            v += self.al[0] * float(np.sum(self.Ms * P))
        if self.Mf is not None:
            v += self.al[1] * float(np.sum(self.Mf * Q))
        D = self.D
        for r, p, q, x, y in ((self.rho[0], P.sum(1), Q.sum(1), a, c), (self.rho[1], P.sum(0), Q.sum(0), b, d)):
            if np.isfinite(r) and r:
                v += r * D(np.multiply.outer(p, q), np.multiply.outer(x, y))
        if self.joint:
            if self.eps[0]:
                v += self.eps[0] * D(np.multiply.outer(P, Q), np.multiply.outer(np.outer(a, b), np.outer(c, d)))
        else:
            v += (self.eps[0] * D(P, np.outer(a, b)) if self.eps[0] else 0.0) + (self.eps[1] * D(Q, np.outer(c, d)) if self.eps[1] else 0.0)
        return v

    def residual(self, P, Q):
        """complementary-slackness residual of one block"""
        def one(f, Z):
            g = np.zeros_like(Z)
            for t in np.ndindex(Z.shape):
                h = 1e-5 * max(Z[t], 1e-3 * Z.max() if Z.max() > 0 else 1.0)
                A, B = Z.copy(), Z.copy()
                A[t] += h
                if Z[t] > h:
                    B[t] -= h
                    g[t] = (f(A) - f(B)) / (2 * h)
                else:
                    g[t] = (f(A) - f(B)) / h
            return float(np.sum(np.abs(g) * Z))
        return one(lambda Z: self.cost(P, Z), Q), one(lambda Z: self.cost(Z, Q), P)


def relaxed(mon, rng, fugw, div):
    X, Y, n, d, m, e = data(mon, rng, 5)
    if fugw:
        X, Y = gw.structure(rng, n, "square_loss", rng.random() < 0.7), gw.structure(rng, m, "square_loss", rng.random() < 0.7)
        d, e = n, m
    s = float(full(X, Y).max()) + 1e-2
    tot = float(gen.pick(rng, (1.0, 1.0, 0.6)))
    ws = gen.weights(rng, n, positive=True) * tot, gen.weights(rng, m, positive=True)
    wf = ws if fugw else (gen.weights(rng, d, positive=True), gen.weights(rng, e, positive=True) * tot)
    rho = tuple(float(s * 10 ** rng.uniform(-0.7, 0.7)) for _ in range(2))
    rho_arg = rho if rng.random() < 0.5 else rho[0]
    if not isinstance(rho_arg, tuple):
        rho = (rho_arg, rho_arg)
    mon.event(div)
    ent = rng.random() < 0.6
    eps = float(s * 10 ** rng.uniform(-0.8, 0.3)) if ent else 0
    pair = (eps, eps)
    arg = eps
    if ent and not fugw and rng.random() < 0.5:
        pair = arg = (eps, float(s * 10 ** rng.uniform(-0.8, 0.3)))
        mon.event("pair-epsilon")
    if div == "kl":
        solver = gen.pick(rng, ("sinkhorn", "sinkhorn_log", "mm", "lbfgsb")) if ent else gen.pick(rng, ("mm", "lbfgsb"))
    else:
        solver = gen.pick(rng, ("mm", "lbfgsb"))
    al = gen.pick(rng, (0, 0.7))
    Ms, Mf = rng.random((n, m)) * s, rng.random((d, e)) * s
    if fugw:
        Mf = Ms
    pal = (al / 2, al / 2) if fugw else (al, al)
    R = Relaxed(rng, X, Y, ws, wf, rho, pair, fugw, div, pal, Ms, Mf)
    rescale = True if fugw else bool(rng.random() < 0.5)
    kw = dict(reg_marginals=rho_arg, epsilon=arg, divergence=div, unbalanced_solver=solver, alpha=al, tol=1e-9,
              max_iter_ot=5000, tol_ot=1e-12)
    S = s + sum(rho) + sum(pair) + al * s
    mon.case(X, Y, *ws, *wf, kw=str(kw), rho=rho, n=n, d=d, m=m, e=e, fugw=fugw, rescale=rescale, nontrivial=n * m * d * e > 1)

    def run(its):
        try:
            if fugw:
                P, Q, log = quiet(ot.gromov.fused_unbalanced_gromov_wasserstein, X, Y, *ws, M=Ms, max_iter=its, log=True, **kw)
                return P, Q, log, log["fugw_cost"]
            P, Q, log = quiet(ot.gromov.unbalanced_co_optimal_transport, X, Y, ws[0], wf[0], ws[1], wf[1], M_samp=Ms, M_feat=Mf,
                              rescale_plan=rescale, max_iter=its, log=True, **kw)
            return P, Q, log, log["ucoot_cost"]
        except ValueError as ex:
            if "NaN in coupling" in str(ex):
                mon.event("reported-nan")
                raise core.Skip()
            raise

    prev = None
    for its in (1, 2, 60):
        P, Q, log, c = run(its)
        mon.true("nonnegative", bool(np.all(P >= 0) and np.all(Q >= 0)))
        want = R.cost(P, Q)
        mon.close("fugw-cost" if fugw else "ucoot-cost", float(c), want, 1e-7 * S, 1e-7)
        mon.close("ucoot-linear", float(log["linear_cost"]), R.linear(P, Q), 1e-8 * S, 1e-8)
        if prev is not None and (fugw and div == "kl" and not al or not rescale):
            mon.le("ucoot-descent", want - prev, 1e-4 * S, "%d alternations" % its)
        prev = want
    if len(log["error"]) < 60 and log["error"][-1] < 1e-9:
        mon.event("converged")
        if (fugw and div == "kl" and not al) or not rescale:
            r1, r2 = R.residual(P, Q)
            mon.le("kkt", r2, 2e-3 * S, "samples given features")
            mon.le("kkt", r1, 2e-3 * S, "features given samples")


@core.family(FAMILIES, 160, weight=4)
def unbalanced(mon, rng, idx):
    relaxed(mon, rng, False, "kl")


@core.family(FAMILIES, 80, weight=4)
def unbalanced_l2(mon, rng, idx):
    relaxed(mon, rng, False, "l2")


@core.family(FAMILIES, 120, weight=4)
def fused(mon, rng, idx):
    relaxed(mon, rng, True, gen.pick(rng, ("kl", "kl", "l2")))
