"""Gradients returned by PyTorch, JAX and TensorFlow are compared with finite differences of the same
loss evaluated by the NumPy backend, along random directions: mass-preserving ones for weights of
balanced problems, free ones for everything else, symmetric ones for symmetric costs.  Directions in
which the loss is not differentiable (left and right slopes differ) or the solver jumps to another
local optimum are skipped and counted.  Losses are composed with a random scaling, so that the chain
rule through custom gradients is exercised; detached modes must not propagate anything."""

import warnings

import numpy as np

import ot
import ot.coot
from vt import core, gen
from vt.checks import c28
from vt.checks.c28 import NX, P, sim, spdm

FAMILIES = {}
START = "spawn"
BACKENDS = ("torch", "jax", "tf")
SPAWN_ENV = c28.SPAWN_ENV
REQUIRED = ("gradient", "gradient-missing", "gradient-finite", "value", "detached")
REQUIRED_EVENTS = ("torch", "jax", "tf", "direction", "weights", "costs", "samples", "scalars")
EPS = 2e-5
worker_setup = c28.worker_setup
L = {}
G, U, B_ = ot.gromov, ot.unbalanced, ot.bregman


def loss(name, libs, make, tol=1e-4, eps=EPS):
    L[name] = (make, libs, tol, eps)


def only(f, *idx):
    def g(*a, **k):
        r = f(*a, **k)
        return r[idx[0]] if isinstance(r, tuple) else r
    return g


def it(kw, **more):
    return dict(kw, **more)


# make(p) -> (inputs: name -> (array, kind), fn(nx, v) -> scalar).  kinds: w weights of a balanced problem,
# p positive vector, f free array, s symmetric matrix, r positive scalar
WAB = lambda p: {"a": (p.a, "w"), "b": (p.b, "w")}
PAB = lambda p: {"a": (p.a, "p"), "b": (p.b, "p")}
XY = lambda p: {"X": (p.X, "f"), "Y": (p.Y, "f")}
M_ = lambda p: {"M": (p.M + 0.1, "f")}
CC = lambda p: {"C1": (p.C1, "s"), "C2": (p.C2, "s")}

loss("emd2", "tjf", lambda p: (dict(WAB(p), **M_(p)), lambda nx, v: ot.emd2(v["a"], v["b"], v["M"])))
loss("emd2-log", "tjf", lambda p: (dict(WAB(p), **M_(p)), lambda nx, v: ot.emd2(v["a"], v["b"], v["M"], log=True)[0]))
loss("emd2-samples", "tjf", lambda p: (dict(WAB(p), **XY(p)), lambda nx, v: ot.emd2(v["a"], v["b"], ot.dist(v["X"], v["Y"]))))
loss("emd2-several", "tj", lambda p: ({"M": (p.M, "f")}, lambda nx, v: sum(ot.emd2(nx.from_numpy(p.a), nx.from_numpy(np.stack([p.b, p.b[::-1]], 1)), v["M"]))))
loss("emd2-lazy", "tj", lambda p: (WAB(p), lambda nx, v: only(ot.lp.emd2_lazy, 0)(nx.from_numpy(p.X), nx.from_numpy(p.Y), v["a"], v["b"])))
loss("emd-plan-cost", "tj", lambda p: (M_(p), lambda nx, v: nx.sum(ot.emd(nx.from_numpy(p.a), nx.from_numpy(p.b), v["M"]) * v["M"])))
for q in (1, 2):
    loss("wasserstein-1d-%d" % q, "tj", lambda p, q=q: (dict(WAB(p), x=(p.x, "f"), y=(p.y, "f")), lambda nx, v: ot.wasserstein_1d(v["x"], v["y"], v["a"], v["b"], p=q)))
loss("wasserstein-circle", "t", lambda p: ({"x": (p.x % 1, "f"), "y": (p.y % 1, "f")}, lambda nx, v: nx.sum(ot.wasserstein_circle(v["x"], v["y"], nx.from_numpy(p.a), nx.from_numpy(p.b), p=2))), tol=1e-3)
loss("circle-uniform", "t", lambda p: ({"x": (p.x % 1, "f")}, lambda nx, v: nx.sum(ot.semidiscrete_wasserstein2_unif_circle(v["x"], nx.from_numpy(p.a)))))
loss("sliced", "tjf", lambda p: (XY(p), lambda nx, v: ot.sliced_wasserstein_distance(v["X"], v["Y"], nx.from_numpy(p.a), nx.from_numpy(p.b), projections=nx.from_numpy(p.proj))))
loss("max-sliced", "tj", lambda p: (XY(p), lambda nx, v: ot.max_sliced_wasserstein_distance(v["X"], v["Y"], nx.from_numpy(p.a), nx.from_numpy(p.b), projections=nx.from_numpy(p.proj))))
SK = dict(stopThr=1e-13, numItermax=2000)
for me in ("sinkhorn", "sinkhorn_log"):
    loss("sinkhorn2-" + me, "t", lambda p, me=me: (dict(WAB(p), M=(p.M, "f")), lambda nx, v: ot.sinkhorn2(v["a"], v["b"], v["M"], 0.5, method=me, **SK)))
loss("sinkhorn2-samples", "t", lambda p: (XY(p), lambda nx, v: ot.sinkhorn2(nx.from_numpy(p.a), nx.from_numpy(p.b), ot.dist(v["X"], v["Y"]), 3.0, **SK)))
loss("empirical-sinkhorn2", "t", lambda p: (XY(p), lambda nx, v: B_.empirical_sinkhorn2(v["X"], v["Y"], 3.0, nx.from_numpy(p.a), nx.from_numpy(p.b), numIterMax=2000, stopThr=1e-13)))
loss("sinkhorn-divergence", "t", lambda p: (dict(XY(p), **WAB(p)), lambda nx, v: B_.empirical_sinkhorn_divergence(v["X"], v["Y"], 3.0, v["a"], v["b"], numIterMax=2000, stopThr=1e-13)))
IN = lambda p: dict(WAB(p), M=(p.M, "f"))
SO = dict(max_iter=3000, tol=1e-13)
for rt in ("KL", "entropy"):
    loss("solve-autodiff-" + rt, "t", lambda p, rt=rt: (dict(IN(p), reg=(np.array(0.5), "r")), lambda nx, v: ot.solve(v["M"], v["a"], v["b"], v["reg"], reg_type=rt, grad="autodiff", **SO).value))
    loss("solve-autodiff-linear-" + rt, "t", lambda p, rt=rt: (dict(IN(p), reg=(np.array(0.5), "r")), lambda nx, v: ot.solve(v["M"], v["a"], v["b"], v["reg"], reg_type=rt, grad="autodiff", **SO).value_linear))
    loss("solve-envelope-" + rt, "tj", lambda p, rt=rt: (IN(p), lambda nx, v: ot.solve(v["M"], v["a"], v["b"], 0.5, reg_type=rt, grad="envelope", **SO).value))
    loss("solve-batch-envelope-" + rt, "tj", lambda p, rt=rt: ({k: (x[None], t) for k, (x, t) in IN(p).items()}, lambda nx, v: nx.sum(ot.solve_batch(v["M"], 0.5, v["a"], v["b"], reg_type=rt, grad="envelope", **SO).value)), tol=1e-3)
    loss("solve-batch-autodiff-" + rt, "t", lambda p, rt=rt: ({k: (x[None], t) for k, (x, t) in IN(p).items()}, lambda nx, v: nx.sum(ot.solve_batch(v["M"], 0.5, v["a"], v["b"], reg_type=rt, grad="autodiff", **SO).value)), tol=1e-3)
loss("solve-envelope-c", "t", lambda p: (IN(p), lambda nx, v: ot.solve(v["M"], v["a"], v["b"], 0.5, c=nx.from_numpy(p.K + 0.2), reg_type="KL", grad="envelope", **SO).value))
loss("solve-emd", "tjf", lambda p: (IN(p), lambda nx, v: ot.solve(v["M"], a=v["a"], b=v["b"]).value))
loss("solve-emd-linear", "tj", lambda p: (IN(p), lambda nx, v: ot.solve(v["M"], a=v["a"], b=v["b"]).value_linear))
loss("solve-sample-emd", "tj", lambda p: (dict(WAB(p), **XY(p)), lambda nx, v: ot.solve_sample(v["X"], v["Y"], a=v["a"], b=v["b"]).value))
loss("solve-sample-sinkhorn", "t", lambda p: (dict(WAB(p), **XY(p)), lambda nx, v: ot.solve_sample(v["X"], v["Y"], a=v["a"], b=v["b"], reg=3.0, grad="envelope", **SO).value))
loss("solve-sample-gaussian", "t", lambda p: (XY(p), lambda nx, v: ot.solve_sample(v["X"], v["Y"], method="gaussian").value))
loss("solve-sample-1d", "tj", lambda p: ({"x": (p.x[:, None], "f"), "y": (p.y[:, None], "f")}, lambda nx, v: ot.solve_sample(v["x"], v["y"], a=nx.from_numpy(p.a), b=nx.from_numpy(p.b), method="1d").value.sum()))
UN = lambda p: dict(PAB(p), M=(p.M, "f"))
loss("unbalanced-sinkhorn2", "t", lambda p: (UN(p), lambda nx, v: U.sinkhorn_unbalanced2(v["a"], v["b"], v["M"], 0.5, 1.0, **SK)))
loss("unbalanced-sinkhorn2-ti", "t", lambda p: (UN(p), lambda nx, v: U.sinkhorn_unbalanced2(v["a"], v["b"], v["M"], 0.5, 1.0, method="sinkhorn_translation_invariant", **SK)))
loss("unbalanced-mm-kl", "t", lambda p: (UN(p), lambda nx, v: U.mm_unbalanced2(v["a"], v["b"], v["M"], 1.0, div="kl", reg=0.2, numItermax=2000, stopThr=1e-14)), tol=1e-3)
loss("solve-unbalanced", "t", lambda p: (UN(p), lambda nx, v: ot.solve(v["M"], v["a"], v["b"], 0.5, unbalanced=1.0, max_iter=3000, tol=1e-13).value), tol=1e-3)
GW = dict(max_iter=1000, tol_rel=1e-12, tol_abs=1e-12)
for lf in ("square_loss", "kl_loss"):
    loss("gromov2-" + lf, "tjf", lambda p, lf=lf: (dict(WAB(p), **CC(p)), lambda nx, v: G.gromov_wasserstein2(v["C1"] + 0.2, v["C2"] + 0.2, v["a"], v["b"], lf, **GW)), tol=2e-3)
    loss("fused2-" + lf, "tjf", lambda p, lf=lf: (dict(WAB(p), **CC(p), **M_(p)), lambda nx, v: G.fused_gromov_wasserstein2(v["M"], v["C1"] + 0.2, v["C2"] + 0.2, v["a"], v["b"], lf, alpha=0.4, **GW)), tol=2e-3)
    loss("semirelaxed2-" + lf, "t", lambda p, lf=lf: (CC(p), lambda nx, v: G.semirelaxed_gromov_wasserstein2(v["C1"] + 0.2, v["C2"] + 0.2, nx.from_numpy(p.a), lf, G0=nx.from_numpy(np.outer(p.a, p.b)), max_iter=700, tol_rel=1e-13, tol_abs=1e-13)), tol=1e-2)
    loss("semirelaxed-fused2-" + lf, "t", lambda p, lf=lf: (dict(CC(p), **M_(p)), lambda nx, v: G.semirelaxed_fused_gromov_wasserstein2(v["M"], v["C1"] + 0.2, v["C2"] + 0.2, nx.from_numpy(p.a), lf, alpha=0.4, G0=nx.from_numpy(np.outer(p.a, p.b)), max_iter=700, tol_rel=1e-13, tol_abs=1e-13)), tol=1e-2)
    loss("partial-gromov2-" + lf, "tj", lambda p, lf=lf: (CC(p), lambda nx, v: G.partial_gromov_wasserstein2(v["C1"] + 0.2, v["C2"] + 0.2, nx.from_numpy(p.a), nx.from_numpy(p.b), m=0.7, loss_fun=lf, numItermax=1000, tol=1e-12)), tol=2e-3)
    loss("partial-fused2-" + lf, "tj", lambda p, lf=lf: (dict(CC(p), **M_(p)), lambda nx, v: G.partial_fused_gromov_wasserstein2(v["M"], v["C1"] + 0.2, v["C2"] + 0.2, nx.from_numpy(p.a), nx.from_numpy(p.b), m=0.7, loss_fun=lf, alpha=0.4, numItermax=1000, tol=1e-12)), tol=2e-3)
AL = lambda p: dict(CC(p), M=(p.M, "f"), alpha=(np.array(0.4), "r"))
loss("fused2-alpha", "t", lambda p: (AL(p), lambda nx, v: G.fused_gromov_wasserstein2(v["M"], v["C1"], v["C2"], nx.from_numpy(p.a), nx.from_numpy(p.b), alpha=v["alpha"] if nx.__name__ != "numpy" else float(v["alpha"]), max_iter=700, tol_rel=1e-13, tol_abs=1e-13)), tol=1e-2)
loss("semirelaxed-fused2-alpha", "t", lambda p: (AL(p), lambda nx, v: G.semirelaxed_fused_gromov_wasserstein2(v["M"], v["C1"], v["C2"], nx.from_numpy(p.a), alpha=v["alpha"] if nx.__name__ != "numpy" else float(v["alpha"]), G0=nx.from_numpy(np.outer(p.a, p.b)), max_iter=700, tol_rel=1e-13, tol_abs=1e-13)), tol=1e-2)
loss("partial-fused2-alpha", "t", lambda p: (AL(p), lambda nx, v: G.partial_fused_gromov_wasserstein2(v["M"], v["C1"], v["C2"], nx.from_numpy(p.a), nx.from_numpy(p.b), m=0.7, alpha=v["alpha"] if nx.__name__ != "numpy" else float(v["alpha"]), numItermax=1000, tol=1e-12)), tol=1e-2)
loss("solve-gromov", "tj", lambda p: (dict(WAB(p), **CC(p), **M_(p)), lambda nx, v: ot.solve_gromov(v["C1"], v["C2"], v["M"], v["a"], v["b"], alpha=0.4, max_iter=1000, tol=1e-12).value), tol=2e-3)
loss("solve-gromov-batch", "t", lambda p: ({"C1": (p.C1[None], "s"), "C2": (p.C2[None], "s")}, lambda nx, v: nx.sum(ot.solve_gromov_batch(v["C1"], v["C2"], a=nx.from_numpy(p.a[None]), b=nx.from_numpy(p.b[None]), reg=1.0, max_iter=60, tol=1e-12, grad="autodiff").value)), tol=5e-3)
loss("coot2", "tj", lambda p: ((lambda Z: {"X": (p.X, "f"), "Y": (Z, "f"), "wx": (p.a, "w"), "wy": (p.b, "w")})(p.rng.normal(size=(5, 3))), lambda nx, v: ot.coot.co_optimal_transport2(v["X"], v["Y"], wx_samp=v["wx"], wy_samp=v["wy"])), tol=2e-3)
UC = dict(max_iter=600, tol=1e-13, max_iter_ot=2000, tol_ot=1e-14, unbalanced_solver="sinkhorn_log")
loss("ucoot2", "t", lambda p: ((lambda Z: {"X": (p.X, "f"), "Y": (Z, "f"), "wx": (p.a, "p"), "wy": (p.b, "p"), "wf": (np.array([0.4, 0.6]), "p")})(p.rng.normal(size=(5, 3))),
     lambda nx, v: G.unbalanced_co_optimal_transport2(v["X"], v["Y"], wx_samp=v["wx"], wy_samp=v["wy"], wx_feat=v["wf"], reg_marginals=3.0, epsilon=1.0, **UC)), tol=3e-2, eps=1e-4)
loss("fugw2", "t", lambda p: (dict(CC(p), **PAB(p), **M_(p)), lambda nx, v: G.fused_unbalanced_gromov_wasserstein2(v["C1"], v["C2"], wx=v["a"], wy=v["b"], reg_marginals=2.0, epsilon=0.5, M=v["M"], alpha=1.0, **UC)), tol=3e-2, eps=1e-4)
loss("bures-distance", "tj", lambda p: ({"m": (p.X[0], "f"), "n": (p.Y[0], "f"), "S": (spdm(p.rng), "s"), "T": (spdm(p.rng), "s")}, lambda nx, v: ot.gaussian.bures_wasserstein_distance(v["m"], v["n"], v["S"], v["T"])))
loss("bures-mapping", "t", lambda p: ({"S": (spdm(p.rng), "s"), "T": (spdm(p.rng), "s")}, lambda nx, v: nx.sum(ot.gaussian.bures_wasserstein_mapping(nx.from_numpy(p.X[0]), nx.from_numpy(p.Y[0]), v["S"], v["T"])[0] * nx.from_numpy(np.array([[1.0, 2], [2, -1]])))))
loss("bures-empirical", "tj", lambda p: (XY(p), lambda nx, v: ot.gaussian.empirical_bures_wasserstein_distance(v["X"], v["Y"], reg=1e-2)))
loss("gaussian-gromov", "t", lambda p: ({"S": (spdm(p.rng), "s"), "T": (spdm(p.rng), "s")}, lambda nx, v: ot.gaussian.gaussian_gromov_wasserstein_distance(v["S"], v["T"])))
loss("gmm", "tj", lambda p: ((lambda S, T: dict(WAB(p), **XY(p), S=(S, "s"), T=(T, "s")))(np.stack([spdm(p.rng) for _ in range(4)]), np.stack([spdm(p.rng) for _ in range(5)])),
     lambda nx, v: ot.gmm.gmm_ot_loss(v["X"], v["Y"], v["S"], v["T"], v["a"], v["b"])))
loss("gmm-pdf", "tj", lambda p: ((lambda S: {"X": (p.X, "f"), "Y": (p.Y, "f"), "S": (S, "s"), "a": (p.a, "p")})(np.stack([spdm(p.rng) for _ in range(4)])), lambda nx, v: nx.sum(ot.gmm.gmm_pdf(v["Y"], v["X"], v["S"], v["a"]))))
loss("dmmot", "tj", lambda p: ({"A": (np.stack([p.rng.dirichlet(np.ones(4)) for _ in range(3)], 1), "cols")}, lambda nx, v: ot.lp.dmmot_monge_1dgrid_loss(v["A"])))
for me in ("sqeuclidean", "euclidean", "cityblock", "cosine"):
    loss("dist-" + me, "tj", lambda p, me=me: (XY(p), lambda nx, v: nx.sum(ot.dist(v["X"], v["Y"], metric=me) * nx.from_numpy(p.K))))
    if me in ("sqeuclidean", "euclidean"):
        loss("dist-batch-" + me, "t", lambda p, me=me: ({"X": (p.X[None], "f"), "Y": (p.Y[None], "f")}, lambda nx, v: nx.sum(ot.dist_batch(v["X"], v["Y"], metric=me)[0] * nx.from_numpy(p.K))))
loss("dist-self", "tj", lambda p: ({"X": (p.X, "f")}, lambda nx, v: nx.sum(ot.dist(v["X"], metric="euclidean") * nx.from_numpy(p.C1))))
loss("kernel", "tj", lambda p: (XY(p), lambda nx, v: nx.sum(ot.utils.kernel(v["X"], v["Y"], sigma=1.3) * nx.from_numpy(p.K))))
loss("simplex", "tj", lambda p: ({"V": (p.K, "f")}, lambda nx, v: nx.sum(ot.utils.proj_simplex(v["V"]) * nx.from_numpy(p.K[::-1].copy()))))
loss("barycenter", "t", lambda p: ({"A": (p.A, "cols")}, lambda nx, v: nx.sum(ot.barycenter(v["A"], nx.from_numpy(p.D), 0.5, numItermax=2000, stopThr=1e-13) * nx.from_numpy(p.a))), tol=1e-3)
loss("stochastic-dual", "t", lambda p: ({"u": (0.3 * p.x, "f"), "v": (0.3 * p.y, "f"), "X": (p.X, "f"), "Y": (p.Y, "f")}, lambda nx, v: ot.stochastic.loss_dual_entropic(v["u"], v["v"], v["X"], v["Y"], 2.0, nx.from_numpy(p.a), nx.from_numpy(p.b))))
loss("stochastic-dual-quad", "t", lambda p: ({"u": (0.3 * p.x, "f"), "v": (0.3 * p.y, "f"), "X": (p.X, "f"), "Y": (p.Y, "f")}, lambda nx, v: ot.stochastic.loss_dual_quadratic(v["u"], v["v"], v["X"], v["Y"], 2.0, nx.from_numpy(p.a), nx.from_numpy(p.b))))
NAMES = sorted(L)
EVENT = {"w": "weights", "p": "weights", "rows": "weights", "cols": "weights", "s": "costs", "r": "scalars", "f": "samples"}
AD = dict(t="torch", j="jax", f="tf")


def direction(rng, x, kind):
    d = rng.normal(size=x.shape)
    if kind in ("w", "rows"):
        d = d - d.mean(-1, keepdims=True)
    elif kind == "cols":
        d = d - d.mean(0)
    elif kind == "s":
        d = (d + np.swapaxes(d, -1, -2)) / 2
    n = np.linalg.norm(d)
    return d / n if n else d


def gradients(lib, fn, vals, scale):
    """value and gradients of scale * fn"""
    nx = NX[lib]
    if lib == "torch":
        import torch

        v = {k: torch.tensor(x, dtype=torch.float64, requires_grad=True) for k, x in vals.items()}
        out = fn(nx, v) * scale
        if not getattr(out, "requires_grad", False):
            return float(out), {k: None for k in v}
        out.backward()
        return float(out), {k: None if t.grad is None else t.grad.numpy() for k, t in v.items()}
    if lib == "jax":
        import jax
        import jax.numpy as jnp

        keys = sorted(vals)
        out, g = jax.value_and_grad(lambda *z: fn(nx, dict(zip(keys, z))) * scale, argnums=tuple(range(len(keys))))(*[jnp.array(vals[k]) for k in keys])
        return float(out), {k: np.asarray(t) for k, t in zip(keys, g)}
    import tensorflow as tf

    v = {k: tf.constant(x) for k, x in vals.items()}
    with tf.GradientTape() as tape:
        for t in v.values():
            tape.watch(t)
        out = fn(nx, v) * scale
    g = tape.gradient(out, v)
    return float(out), {k: None if t is None else np.asarray(t) for k, t in g.items()}


@core.family(FAMILIES, 3 * len(NAMES), thorough_n=40 * len(NAMES), weight=4, cpu_limit=200)
def losses(mon, rng, idx):
    name = NAMES[idx % len(NAMES)]
    make, libs, tol, eps = L[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        inputs, fn = make(P(rng))
        vals = {k: np.array(x, float) for k, (x, kind) in inputs.items()}
        mon.case(*[vals[k] for k in sorted(vals)], name=name)
        scale = float(rng.uniform(0.5, 3))

        def f(key=None, step=0):
            v = {k: (x + step if k == key else x.copy()) for k, x in vals.items()}
            return float(fn(NX["numpy"], v)) * scale

        f0 = f()
        ref = {}
        for k in sorted(inputs):
            kind = inputs[k][1]
            for _ in range(2):
                d = direction(rng, vals[k], kind)
                if not d.any():
                    continue
                r1, l1 = (f(k, eps * d) - f0) / eps, (f0 - f(k, -eps * d)) / eps
                c1 = (r1 + l1) / 2
                c2 = (f(k, 3 * eps * d) - f(k, -3 * eps * d)) / (6 * eps)
                size = 1 + abs(c1)
                # a kink or a jump to another optimum nearby
                if not np.isfinite([r1, l1, c1, c2]).all() or abs(r1 - l1) > max(5 * tol, 3e-3 if eps <= EPS else 3e-2) * size or abs(c1 - c2) > tol * size / 2:
                    mon.event("not-smooth")
                    continue
                mon.event("direction")
                mon.event(EVENT[kind])
                ref.setdefault(k, []).append((d, c1))
        for c in libs:
            lib = AD[c]
            mon.event(lib)
            out, g = gradients(lib, fn, vals, scale)
            mon.close("value", out, f0, 1e-6 * (1 + abs(f0)), 1e-6, "%s in %s" % (name, lib))
            for k in inputs:
                what = "%s: d/d%s in %s" % (name, k, lib)
                if not mon.true("gradient-missing", g[k] is not None and g[k].shape == vals[k].shape, what):
                    continue
                if not mon.finite("gradient-finite", g[k], what):
                    continue
                for d, c1 in ref.get(k, ()):
                    mon.close("gradient", float((g[k] * d).sum()), c1, tol * (1 + abs(c1)), 0, what)


@core.family(FAMILIES, 16, weight=2)
def modes(mon, rng, idx):
    """detached results propagate nothing; every mode gives the same value and plan"""
    import torch

    p = P(rng)
    t = lambda x: torch.tensor(x, requires_grad=True)
    rt = gen.pick(rng, ("KL", "entropy"))
    mon.case(p.a, p.b, p.M, rt=rt)
    kw = dict(reg_type=rt, max_iter=2000, tol=1e-12)
    ref = ot.solve(p.M, p.a, p.b, 0.5, **kw)
    for grad in ("autodiff", "envelope", "last_step", "detach"):
        M, a, b = t(p.M), t(p.a), t(p.b)
        r = ot.solve(M, a, b, 0.5, grad=grad, **kw)
        mon.close("value", float(r.value), float(ref.value), 1e-6, 0, grad)
        mon.close("value", r.plan.detach().numpy(), ref.plan, 1e-6, 0, grad)
        if grad in ("envelope", "detach"):
            mon.true("detached", not r.plan.requires_grad, grad)
        else:
            mon.true("detached", r.plan.requires_grad, grad)
        if grad == "detach":
            mon.true("detached", not r.value.requires_grad, grad)
        else:
            r.value.backward()
            for x in (M, a, b):
                mon.true("gradient-missing", x.grad is not None, grad)
                mon.finite("gradient-finite", x.grad.numpy(), grad)
    for grad in ("autodiff", "envelope", "last_step", "detach"):
        for solver in ("log_sinkhorn", "sinkhorn"):
            M, a, b = t(p.M[None]), t(p.a[None]), t(p.b[None])
            r = ot.solve_batch(M, 0.5, a, b, grad=grad, solver=solver, **kw)
            mon.close("value", r.plan[0].detach().numpy(), ref.plan, 1e-5, 0, "batch " + grad)
            mon.close("value", float(r.value.detach()[0]), float(ref.value), 1e-5, 0, "batch " + grad)
            if grad == "detach":
                mon.true("detached", not r.value.requires_grad and not r.plan.requires_grad, "batch")
            else:
                r.value.sum().backward()
                mon.finite("gradient-finite", M.grad.numpy(), grad)
        r = ot.solve_batch(p.M[None], 0.5, p.a[None], p.b[None], grad=grad, **kw)
        mon.close("value", r.plan[0], ref.plan, 1e-5, 0, "batch numpy " + grad)
    # points at distance zero
    X = rng.normal(size=(4, 2))
    for f in (lambda x, y: ot.dist(x, y, metric="euclidean").sum(), lambda x, y: ot.dist_batch(x[None], y[None], metric="euclidean").sum(), lambda x, y: ot.emd2(torch.ones(4, dtype=x.dtype) / 4, torch.ones(4, dtype=x.dtype) / 4, ot.dist(x, y, metric="euclidean")),
              lambda x, y: ot.sliced_wasserstein_distance(x, y, projections=torch.tensor(p.proj), p=1)):
        x, y = t(X), t(X[::-1].copy())
        f(x, y).backward()
        mon.finite("gradient-finite", x.grad.numpy(), "common points")
