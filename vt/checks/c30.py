"""Calls are pure.  Every public solver is called on arrays whose bytes are compared before and after
the call (also read-only ones), repeated after a random history of other calls and after a reset of
the global random generators, and repeated by several threads at once (with a very short interpreter
switch interval): all results must be identical.  The caller's random state, warning filters,
floating-point error handling, print options, environment and working directory must be unchanged,
and nothing may be printed."""

import contextlib
import copy
import io
import os
import random
import sys
import tempfile
import threading
import warnings

import numpy as np

import ot
import ot.datasets
import ot.regpath
import ot.sgot
from vt import core, gen
from vt.checks import c28
from vt.checks.c28 import P, sim, spdm

FAMILIES = {}
START = "spawn"
BACKENDS = ("torch",)
REQUIRED = ("input-intact", "input-readonly", "repeat", "history", "global-state", "silent", "threads", "threads-intact", "tensor-intact")
REQUIRED_EVENTS = ("solver-calls", "random-solvers", "fortran-order", "history-calls", "thread-runs", "seeded", "tensors", "leaf-tensors")
ASSUMPTIONS = ["the caller holds a single NumPy / PyTorch thread pool thread (OMP_NUM_THREADS=1)"]

# ---------------------------------------------------------------------------
# calls: name -> function of a problem giving (function, args, kwargs)
# ---------------------------------------------------------------------------
Z = {k: v[0] for k, v in c28.S.items()}
SEEDED = set()
G, DR, DA, SL = ot.gromov, None, ot.da, ot.sliced


def z(name, f):
    assert name not in Z, name
    Z[name] = f


def seeded(name, f):
    SEEDED.add(name)
    z(name, f)


def sd(p):
    return int(p.rng.integers(1000))


def grp(p):
    """two features groups of equal size"""
    return np.concatenate([p.X, p.X + 3.0]), np.repeat([0, 1], p.n)


def simplex_of(p, n):
    return p.rng.dirichlet(np.full(n, 3.0)) * 0.9 + 0.1 / n


def graph(p, n=8):
    return sim(p.rng.random((n, n)))


# -- exact transport
z("emd-start", lambda p: (ot.emd, (p.a, p.b, p.M), dict(potentials_init=(p.x.copy(), p.y.copy()), log=True)))
z("emd-unnormalised", lambda p: (ot.emd, (p.a, p.b * (1 + 1e-9), p.M), dict(log=True)))
z("emd-integers", lambda p: (ot.emd, (np.full(p.n, 1 / p.n), np.full(p.m, 1 / p.m), p.rng.integers(0, 5, (p.n, p.m))), {}))
z("emd-empty-weights", lambda p: (ot.emd, (np.zeros(0), np.zeros(0), p.M), dict(log=True)))
z("emd-null-weights", lambda p: (ot.emd, (p.a * p.mask / (p.a * p.mask).sum(), p.b, p.M), dict(log=True)))
z("emd2-log", lambda p: (ot.emd2, (p.a, p.b, p.M), dict(log=True, return_matrix=True)))
z("emd2-lazy", lambda p: (ot.lp.emd2_lazy, (p.X, p.Y, p.a, p.b), dict(log=True)))
z("emd-omp", lambda p: (ot.emd, (p.a, p.b, p.M), dict(numThreads=2)))
z("barycenter-lp", lambda p: (ot.lp.barycenter, (p.A, p.D), dict(weights=np.array([0.2, 0.3, 0.5]))))
z("dmmot", lambda p: (ot.lp.dmmot_monge_1dgrid_loss, (p.A,), dict(log=True)))
z("dmmot-optimize", lambda p: (ot.lp.dmmot_monge_1dgrid_optimize, (p.A,), dict(niters=5, log=True)))  # print_rate is documented to print
PRINTS = {"dmmot-optimize"}
z("gluing", lambda p: (ot.lp.NorthWestMMGluing, ([ot.emd(p.a, p.b, p.M), np.outer(p.a, p.b)],), dict(log=True)))
z("barycenter-energy", lambda p: (ot.lp.ot_barycenter_energy, ([p.X, p.Y], [p.a, p.b], p.X[:3] + 0.1, np.full(3, 1 / 3), [lambda x, y: ot.dist(x, y)] * 2), {}))
z("emd-1d-options", lambda p: (ot.emd_1d, (p.x, p.y, p.a, p.b), dict(metric="minkowski", p=3.0, dense=False, log=True)))
z("wasserstein-1d-unsorted", lambda p: (ot.wasserstein_1d, (p.X, p.rng.normal(size=(p.m, 2)), np.stack([p.a] * 2, 1), np.stack([p.b] * 2, 1)), dict(p=1)))
z("quantile", lambda p: (ot.lp.solver_1d.quantile_function, (np.sort(p.rng.random(7)), np.cumsum(p.a), np.sort(p.x)), {}))
z("circle-binary", lambda p: (ot.lp.solver_circle.binary_search_circle, (p.x % 1, p.y % 1, p.a, p.b), dict(p=3, log=True)))
z("circle-1", lambda p: (ot.wasserstein_circle, (p.x % 1, p.y % 1, p.a, p.b), dict(p=1)))
z("circle-embedding", lambda p: (ot.lp.solver_circle.linear_circular_embedding, (np.linspace(0, 1, 5), p.x % 1, p.a), {}))
z("partial-1d", lambda p: (ot.partial.partial_wasserstein_1d, (p.x, p.y, 3), {}))
z("partial-unequal", lambda p: (ot.partial.partial_wasserstein, (p.a, p.b * 2, p.M), dict(m=0.8, log=True)))
z("entropic-partial-log", lambda p: (ot.partial.entropic_partial_wasserstein_logscale, (p.a, p.b, p.M, 0.5), dict(m=0.5, log=True)))
z("gwgrad-partial", lambda p: (ot.partial.gwgrad_partial, (p.C1, p.C2, p.K), {}))
z("sparse-emd", lambda p: (lambda a, b, r, c, v: ot.emd(a, b, ot.backend.get_backend(a).coo_matrix(v, r, c, shape=(4, 5)), log=True), (p.a, p.b, np.repeat(np.arange(4), 5), np.tile(np.arange(5), 4), p.M.ravel().copy()), {}))

# -- entropic transport
for me_ in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "greenkhorn"):
    z("warm-" + me_, lambda p, me=me_: (ot.sinkhorn, (p.a, p.b, p.M, 0.3), dict(method=me, log=True, numItermax=7, stopThr=1e-12, **({} if me == "greenkhorn" else dict(warmstart=(0.1 * p.x, 0.1 * p.y))))))
for me_ in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    z("warm-unbalanced-" + me_, lambda p, me=me_: (ot.unbalanced.sinkhorn_unbalanced, (p.a, p.b, p.M, 0.3, np.array([1.0, 2.0]) if me == "sinkhorn" else 1.0), dict(method=me, warmstart=(0.1 * p.x, 0.1 * p.y), c=p.K + 0.1, log=True, numItermax=20)))
z("screenkhorn", lambda p: (ot.bregman.screenkhorn, (p.a, p.b, p.M, 0.5), dict(uniform=True, ns_budget=3, nt_budget=4, log=True)))
seeded("nystroem", lambda p: (ot.bregman.empirical_sinkhorn_nystroem, (p.X, p.Y), dict(reg=3.0, anchors=3, a=p.a, b=p.b, numItermax=20, random_state=sd(p), log=True)))
seeded("nystroem2", lambda p: (ot.bregman.empirical_sinkhorn_nystroem2, (p.X, p.Y), dict(reg=3.0, anchors=3, a=p.a, b=p.b, numItermax=20, random_state=sd(p))))
seeded("kernel-nystroem", lambda p: (ot.lowrank.kernel_nystroem, (p.X, p.Y), dict(anchors=3, random_state=sd(p))))
seeded("lowrank", lambda p: (ot.lowrank_sinkhorn, (p.X, p.Y, p.a, p.b), dict(rank=2, init="random", seed_init=sd(p), numItermax=20, log=True)))
seeded("lowrank-kmeans", lambda p: (ot.lowrank_sinkhorn, (p.X, p.Y, p.a, p.b), dict(rank=2, init="kmeans", seed_init=sd(p), reg=0.3, numItermax=10, log=True)))
seeded("lowrank-gromov", lambda p: (G.lowrank_gromov_wasserstein_samples, (p.X, p.Y, p.a, p.b), dict(rank=2, reg=0.5, seed_init=sd(p), numItermax=5, log=True)))
z("barycenter-stabilized", lambda p: (ot.bregman.barycenter_stabilized, (p.A, p.D, 0.2), dict(weights=np.array([0.2, 0.3, 0.5]), log=True, numItermax=20)))
z("projR", lambda p: (ot.bregman.projR, (p.K + 0.1, p.a), {}))
z("projC", lambda p: (ot.bregman.projC, (p.K + 0.1, p.b), {}))
z("geometric-mean", lambda p: (ot.bregman.geometricMean, (p.A,), {}))
z("unmix-log", lambda p: (ot.bregman.unmix, (p.a, p.A, p.D, p.D[:3, :3].copy(), np.full(3, 1 / 3), 0.3, 0.3, 0.1), dict(log=True, numItermax=10)))
z("empirical-lazy", lambda p: (lambda X, Y, a, b: ot.solve_sample(X, Y, a=a, b=b, reg=1.0, lazy=True, batch_size=2, max_iter=10).lazy_plan[:], (p.X, p.Y, p.a, p.b), {}))
z("mm-start", lambda p: (ot.unbalanced.mm_unbalanced, (p.a, p.b, p.M, 1.0), dict(G0=p.K + 0.1, c=p.K + 0.2, reg=0.2, numItermax=20, log=True)))
z("lbfgs-start", lambda p: (ot.unbalanced.lbfgsb_unbalanced, (p.a, p.b, p.M, 0.2, (1.0, 2.0)), dict(G0=p.K + 0.1, c=p.K + 0.2, reg_div="entropy", log=True)))
z("barycenter-unbalanced-stabilized", lambda p: (ot.unbalanced.barycenter_unbalanced, (p.A, p.D, 0.2, 1.0), dict(method="sinkhorn_stabilized", weights=np.array([0.2, 0.3, 0.5]), log=True, numItermax=20)))
z("regpath", lambda p: (ot.regpath.regularization_path, (p.a, p.b, p.M), dict(reg=0.1)))
z("regpath-semi", lambda p: (ot.regpath.regularization_path, (p.a, p.b, p.M), dict(reg=0.1, semi_relaxed=True)))
seeded("sag", lambda p: (ot.stochastic.sag_entropic_transport, (p.a, p.b, p.M, 0.5), dict(numItermax=50, random_state=sd(p))))
seeded("sgd-dual", lambda p: (ot.stochastic.sgd_entropic_regularization, (p.a, p.b, p.M, 0.5), dict(batch_size=2, numItermax=20, lr=0.3, random_state=sd(p))))
seeded("asgd", lambda p: (ot.stochastic.averaged_sgd_entropic_transport, (p.a, p.b, p.M, 0.5), dict(numItermax=50, random_state=sd(p))))
z("c-transform", lambda p: (ot.stochastic.c_transform_entropic, (p.b, p.M, 0.5, p.y), {}))
z("batch-grad", lambda p: (ot.stochastic.batch_grad_dual, (p.a, p.b, p.M, 0.5, p.x, p.y, 2, np.array([0, 2]), np.array([1, 4])), {}))
z("coordinate-grad", lambda p: (ot.stochastic.coordinate_grad_semi_dual, (p.b, p.M, 0.5, p.y, 1), {}))
z("loss-dual", lambda p: (ot.stochastic.loss_dual_entropic, (p.x, p.y, p.X, p.Y), dict(ws=p.a, wt=p.b)))
z("plan-dual", lambda p: (ot.stochastic.plan_dual_quadratic, (p.x, p.y, p.X, p.Y), dict(ws=p.a, wt=p.b)))
for k_ in ("kl", "l2", "sparsity_constrained"):
    z("smooth-" + k_, lambda p, k=k_: (ot.smooth.smooth_ot_semi_dual, (p.a, p.b, p.M, 0.5), dict(reg_type=k, log=True, max_nz=2)))

# -- sliced
for k_, f_ in (("sw", ot.sliced_wasserstein_distance), ("max-sw", ot.max_sliced_wasserstein_distance)):
    seeded(k_ + "-seed", lambda p, f=f_: (f, (p.X, p.Y, p.a, p.b), dict(n_projections=6, seed=sd(p), log=True)))


def sphere(X):
    return X / np.linalg.norm(X, axis=-1, keepdims=True)


seeded("sphere", lambda p: (ot.sliced_wasserstein_sphere, (sphere(p.rng.normal(size=(5, 3))), sphere(p.rng.normal(size=(4, 3)))), dict(n_projections=4, seed=sd(p), log=True)))
seeded("sphere-unif", lambda p: (ot.sliced_wasserstein_sphere_unif, (sphere(p.rng.normal(size=(5, 3))),), dict(n_projections=4, seed=sd(p), log=True)))
seeded("sphere-linear", lambda p: (SL.linear_sliced_wasserstein_sphere, (sphere(p.rng.normal(size=(5, 3))), sphere(p.rng.normal(size=(4, 3)))), dict(n_projections=4, seed=sd(p), log=True)))
seeded("projections", lambda p: (SL.get_random_projections, (3, 5), dict(seed=sd(p))))
seeded("projections-sphere", lambda p: (SL.get_projections_sphere, (3, 5), dict(seed=sd(p))))
seeded("min-plan-seed", lambda p: (ot.min_sliced_transport_plan, (p.X, p.X[::-1].copy() + 0.5), dict(n_projections=6, seed=sd(p), log=True)))
seeded("expected-plan-seed", lambda p: (ot.expected_sliced_plan, (p.X, p.Y), dict(n_projections=6, seed=sd(p), log=True)))

# -- gromov
z("gw-start", lambda p: (G.gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(G0=np.outer(p.a, p.b), log=True, max_iter=5)))
z("gw-asymmetric", lambda p: (G.gromov_wasserstein, (p.rng.random((4, 4)), p.rng.random((5, 5)), p.a, p.b), dict(symmetric=False, log=True, max_iter=5)))
z("fgw-start", lambda p: (G.fused_gromov_wasserstein2, (p.M, p.C1, p.C2, p.a, p.b), dict(G0=np.outer(p.a, p.b), log=True, max_iter=5, alpha=0.3)))
z("srgw-log", lambda p: (G.semirelaxed_fused_gromov_wasserstein, (p.M, p.C1, p.C2, p.a), dict(G0=np.outer(p.a, p.b), log=True, max_iter=10)))
for k_ in ("random", "random_product", "kmeans", "spectral", "fluid", "product"):
    seeded("srgw-" + k_, lambda p, k=k_: (G.semirelaxed_gromov_wasserstein2, (graph(p, 6), p.C2[:3, :3].copy(), simplex_of(p, 6)), dict(G0=k, random_state=sd(p), log=True, max_iter=10)))
seeded("srgw-init", lambda p: (G._utils.semirelaxed_init_plan, (p.C1, p.C2, p.a), dict(method="random", random_state=sd(p))))
z("partial-gw-start", lambda p: (G.partial_gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(m=0.6, G0=np.outer(p.a, p.b) * 0.6, log=True)))
z("entropic-partial-gw-start", lambda p: (G.entropic_partial_fused_gromov_wasserstein, (p.M, p.C1, p.C2, p.a, p.b), dict(m=0.6, reg=1.0, G0=np.outer(p.a, p.b) * 0.6, log=True, numItermax=5)))
z("entropic-gw-start", lambda p: (G.entropic_gromov_wasserstein, (p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, G0=np.outer(p.a, p.b), max_iter=5, log=True)))
z("entropic-fgw-warm", lambda p: (G.entropic_fused_gromov_wasserstein, (p.M, p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, warmstart=True, max_iter=5, log=True)))
z("bapg-start", lambda p: (G.BAPG_fused_gromov_wasserstein, (p.M, p.C1, p.C2, p.a, p.b), dict(epsilon=0.5, G0=np.outer(p.a, p.b), max_iter=10, log=True)))
seeded("pointwise-gw", lambda p: (G.pointwise_gromov_wasserstein, (p.C1, p.C2, p.a, p.b, lambda x, y: (x - y) ** 2), dict(max_iter=10, random_state=sd(p), log=True)))
seeded("sampled-gw", lambda p: (G.sampled_gromov_wasserstein, (p.C1, p.C2, p.a, p.b, lambda x, y: (x - y) ** 2), dict(max_iter=5, nb_samples_grad=3, random_state=sd(p), log=True)))
seeded("gw-estimation", lambda p: (G.GW_distance_estimation, (p.C1, p.C2, p.a, p.b, lambda x, y: (x - y) ** 2, np.outer(p.a, p.b)), dict(nb_samples_p=3, nb_samples_q=3, random_state=sd(p))))
for k_, r_ in (("random", "random"), ("louvain", "pagerank"), ("fluid", "random"), ("spectral", "pagerank")):
    seeded("quantized-" + k_, lambda p, k=k_, r=r_: (G.quantized_fused_gromov_wasserstein, (graph(p), graph(p, 7), 3, 3), dict(p=simplex_of(p, 8), q=simplex_of(p, 7), part_method=k, rep_method=r, random_state=sd(p), log=True)))
seeded("quantized-features", lambda p: (G.quantized_fused_gromov_wasserstein, (graph(p), graph(p, 7), 3, 3), dict(F1=p.rng.normal(size=(8, 2)), F2=p.rng.normal(size=(7, 2)), C1_aux=graph(p), C2_aux=graph(p, 7), alpha=0.5, part_method="louvain_fused", random_state=sd(p), log=True)))
for k_ in ("kmeans", "random"):
    seeded("quantized-samples-" + k_, lambda p, k=k_: (G.quantized_fused_gromov_wasserstein_samples, (p.rng.normal(size=(8, 2)), p.rng.normal(size=(7, 2)), 3, 3), dict(p=simplex_of(p, 8), q=simplex_of(p, 7), method=k, random_state=sd(p), log=True)))
bary = dict(max_iter=2, log=True)
seeded("gw-bary-seed", lambda p: (G.gromov_barycenters, (3, [p.C1, p.C2]), dict(bary, ps=[p.a, p.b], lambdas=[0.4, 0.6], random_state=sd(p), warmstartT=True)))
seeded("egw-bary-seed", lambda p: (G.entropic_gromov_barycenters, (3, [p.C1, p.C2]), dict(bary, ps=[p.a, p.b], p=np.array([0.2, 0.3, 0.5]), epsilon=0.5, random_state=sd(p))))
seeded("fgw-bary-seed", lambda p: (G.fgw_barycenters, (3, [p.X, p.Y], [p.C1, p.C2]), dict(bary, ps=[p.a, p.b], random_state=sd(p))))
seeded("efgw-bary-seed", lambda p: (G.entropic_fused_gromov_barycenters, (3, [p.X, p.Y], [p.C1, p.C2]), dict(bary, ps=[p.a, p.b], epsilon=0.5, random_state=sd(p))))
z("fgw-bary-fixed", lambda p: (G.fgw_barycenters, (3, [p.X, p.Y], [p.C1, p.C2]), dict(bary, ps=[p.a, p.b], fixed_structure=True, fixed_features=True, init_C=graph(p, 3), init_X=p.rng.normal(size=(3, 2)))))
for k_ in ("product", "random", "random_product", "kmeans", "fluid"):
    seeded("sr-bary-" + k_, lambda p, k=k_: (G.semirelaxed_gromov_barycenters, (3, [graph(p, 5), graph(p, 6)]), dict(bary, lambdas=[0.4, 0.6], G0=k, random_state=sd(p))))
    seeded("srf-bary-" + k_, lambda p, k=k_: (G.semirelaxed_fgw_barycenters, (3, [p.Y, p.rng.normal(size=(6, 2))], [graph(p, 5), graph(p, 6)]), dict(bary, lambdas=[0.4, 0.6], G0=k, random_state=sd(p))))
z("sr-bary-init", lambda p: (G.semirelaxed_gromov_barycenters, (3, [graph(p, 5), graph(p, 6)]), dict(bary, init_C=graph(p, 3))))
dl = dict(epochs=2, batch_size=2, max_iter_outer=3, max_iter_inner=10)
seeded("dictionary", lambda p: (G.gromov_wasserstein_dictionary_learning, ([p.C1, p.C2, p.C3], 2, 3), dict(dl, random_state=sd(p))))
seeded("dictionary-init", lambda p: (G.gromov_wasserstein_dictionary_learning, ([p.C1, p.C2, p.C3], 2, 3), dict(dl, ps=[p.a, p.b, p.b], Cdict_init=np.stack([graph(p, 3)] * 2), use_adam_optimizer=False, random_state=sd(p))))
seeded("fused-dictionary", lambda p: (G.fused_gromov_wasserstein_dictionary_learning, ([p.C1, p.C2, p.C3], [p.X, p.Y, p.Y], 2, 3, 0.5), dict(dl, Cdict_init=np.stack([graph(p, 3)] * 2), Ydict_init=p.rng.normal(size=(2, 3, 2)), random_state=sd(p))))
z("unmixing", lambda p: (G.gromov_wasserstein_linear_unmixing, (p.C1, np.stack([graph(p, 3), graph(p, 3)])), dict(reg=0.01, p=p.a, max_iter_outer=3)))
z("fused-unmixing", lambda p: (G.fused_gromov_wasserstein_linear_unmixing, (p.C1, p.X, np.stack([graph(p, 3), graph(p, 3)]), p.rng.normal(size=(2, 3, 2)), 0.5), dict(reg=0.01, p=p.a, max_iter_outer=3)))
z("ucoot-start", lambda p: (G.unbalanced_co_optimal_transport, (p.X, p.rng.normal(size=(5, 3))), dict(reg_marginals=5.0, epsilon=0.5, max_iter=3, init_pi=(np.outer(p.a, p.b), np.full((2, 3), 1 / 6)), wx_samp=p.a, wy_samp=p.b, log=True)))
z("coot-start", lambda p: (ot.coot.co_optimal_transport, (p.X, p.rng.normal(size=(5, 3))), dict(wx_samp=p.a, wy_samp=p.b, epsilon=(0.1, 0.1), M_samp=p.M, alpha=0.3, warmstart=dict(pi_sample=np.outer(p.a, p.b), pi_feature=np.full((2, 3), 1 / 6), duals_sample=(p.x * 0, p.y * 0), duals_feature=(np.zeros(2), np.zeros(3))), log=True, nits_bcd=3)))

# -- gaussians, mixtures
covs_ = lambda p, k: np.stack([spdm(p.rng) for _ in range(k)])
z("bures-gradient", lambda p: (ot.gaussian.bures_wasserstein_barycenter, (p.X[:3].copy(), covs_(p, 3)), dict(method="gradient_descent", num_iter=10, log=True)))
z("empirical-bures-bary", lambda p: (ot.gaussian.empirical_bures_wasserstein_barycenter, ([p.X, p.Y],), dict(reg=0.1, num_iter=10)))
seeded("gmm-map-rand", lambda p: (ot.gmm.gmm_ot_apply_map, (p.rng.normal(size=(6, 2)), p.X, p.Y, covs_(p, 4), covs_(p, 5), p.a, p.b), dict(method="rand", seed=sd(p))))
z("gmm-map", lambda p: (ot.gmm.gmm_ot_apply_map, (p.rng.normal(size=(6, 2)), p.X, p.Y, covs_(p, 4), covs_(p, 5), p.a, p.b), {}))
z("gmm-barycenter", lambda p: (ot.gmm.gmm_barycenter_fixed_point, ([p.X, p.Y], [covs_(p, 4), covs_(p, 5)], [p.a, p.b], p.rng.normal(size=(3, 2)), covs_(p, 3), np.array([0.4, 0.6])), dict(iterations=3, log=True)))
z("gmm-density", lambda p: (ot.gmm.gmm_ot_plan_density, (p.x[:, None].copy(), p.y[:, None].copy(), p.x[:2, None].copy(), p.y[:2, None].copy(), np.ones((2, 1, 1)), 2 * np.ones((2, 1, 1)), np.array([0.3, 0.7]), np.array([0.5, 0.5])), {}))

# -- helpers
z("cost-normalization", lambda p: (lambda M: [ot.utils.cost_normalization(M, n, return_value=True) for n in ("median", "max", "log", "loglog")], (p.M,), {}))
z("clean-zeros", lambda p: (ot.utils.clean_zeros, (p.a * p.mask, p.b, p.M), {}))
z("proj-sdp", lambda p: (ot.utils.proj_SDP, (np.stack([p.C1 - 0.5, p.C1]),), {}))
z("sparse-dist", lambda p: (ot.utils.sparse_ot_dist, (p.X, p.Y, np.array([0, 1, 3]), np.array([4, 0, 2])), {}))
z("datascaler", lambda p: (lambda X, Y: (lambda s: [s.fit_transform(X), s.transform(Y)])(ot.utils.DataScaler()), (p.X, p.Y), {}))
z("make-1d", lambda p: (ot.datasets.make_1D_gauss, (10, 4.0, 2.0), {}))
seeded("make-2d", lambda p: (ot.datasets.make_2D_samples_gauss, (5, p.X[0].copy(), spdm(p.rng)), dict(random_state=sd(p))))
for k_ in ("3gauss", "3gauss2", "gaussrot"):
    seeded("data-" + k_, lambda p, k=k_: (ot.datasets.make_data_classif, (k, 8), dict(random_state=sd(p), theta=0.3)))
z("dist-metrics", lambda p: (lambda X, Y: [ot.dist(X, Y, m) for m in ("cosine", "chebyshev", "canberra", "seuclidean", "correlation")], (p.rng.normal(size=(4, 3)), p.rng.normal(size=(5, 3))), {}))
z("euclidean", lambda p: (ot.utils.euclidean_distances, (p.X, p.Y), dict(squared=True)))
z("nan-simplex", lambda p: (ot.utils.proj_simplex, (p.x,), dict(z=2.0)))
z("lazy", lambda p: (lambda Q, R, X: (lambda T: [T[:], T[1], ot.utils.reduce_lazytensor(T, np.sum, axis=0)])(ot.utils.get_lowrank_lazytensor(Q, R, X)), (p.K, p.rng.random((6, 5)), p.b), {}))
z("get-params", lambda p: (lambda: sorted(ot.da.SinkhornTransport(reg_e=1.0).get_params()), (), {}))


def sgot_args(p):
    rng = p.rng
    c = lambda *s: rng.normal(size=s) + 1j * rng.normal(size=s)
    return (c(3) * 0.5, c(4, 3), c(4, 3), c(2) * 0.5, c(4, 2), c(4, 2))


z("sgot", lambda p: (ot.sgot.sgot_metric, sgot_args(p), dict(Ws=np.array([0.2, 0.3, 0.5]), Wt=np.array([0.4, 0.6]))))
z("sgot-cost", lambda p: (ot.sgot.sgot_cost_matrix, sgot_args(p), {}))

# -- projections, mappings, domain adaptation


def est(cl, kw, lab="ys", target=False):
    def make(p):
        def run(X, Y, y, yt, Z_):
            t = getattr(DA, cl)(**kw)
            k = dict(Xs=X, Xt=Y, ys=y)
            if target:
                k["yt"] = yt
            t.fit(**k)
            out = [t.coupling_ if hasattr(t, "coupling_") else None, t.transform(Xs=X), t.transform(Xs=Z_)]
            if hasattr(t, "coupling_"):
                out += [t.inverse_transform(Xt=Y), t.transform_labels(ys=y), t.inverse_transform_labels(yt=yt)]
            return out
        return run, (p.X, p.Y, np.array([0, 0, 1, 1]), np.array([0, -1, 1, -1, 0]), p.X + 0.1), {}
    return make


for cl_, kw_ in (("SinkhornTransport", dict(reg_e=1.0, norm="max", out_of_sample_map="continuous")), ("EMDTransport", dict(norm="median")), ("EMDLaplaceTransport", dict(max_iter=5)), ("SinkhornLpl1Transport", dict(reg_e=1.0, max_iter=3)),
                 ("SinkhornL1l2Transport", dict(max_iter=3)), ("UnbalancedSinkhornTransport", dict(reg_e=1.0, reg_m=1.0))):
    z("fit-" + cl_, est(cl_, kw_))
    z("fit-semi-" + cl_, est(cl_, kw_, target=True))
z("fit-mapping", lambda p: (lambda X, Y, Z_: (lambda t: [t.coupling_, t.transform(X), t.transform(Z_)])(DA.MappingTransport(kernel="gaussian", max_iter=3, max_inner_iter=3, bias=True).fit(Xs=X, Xt=Y)), (p.X, p.Y, p.X + 0.1), {}))
z("fit-jcpot", lambda p: (lambda X, X2, Y, y: (lambda t: [t.coupling_, t.proportions_, t.transform(Xs=[X, X2])])(DA.JCPOTTransport(reg_e=2.0, max_iter=5).fit(Xs=[X, X2], ys=[y, y], Xt=Y)), (p.X, p.X + 0.2, p.Y, np.array([0, 1, 0, 1])), {}))
z("mapping-kernel", lambda p: (ot.mapping.joint_OT_mapping_kernel, (p.X, p.Y), dict(bias=True, numItermax=3, log=True)))
NOTORCH = set()
try:
    import ot.dr as DR
except ImportError:
    DR = None
if DR is not None:
    NOTORCH |= {"fda", "wda", "wda-start", "prw", "prw-start", "ewca"}
    z("fda", lambda p: (lambda X, y: (lambda r: [r[0], r[1](X)])(DR.fda(X, y, 1)), grp(p), {}))
    seeded("wda-start", lambda p: (lambda X, y, P0: (lambda r: [r[0], r[1](X)])(DR.wda(X, y, 1, maxiter=2, k=3, P0=P0, normalize=True)), grp(p) + (np.array([[0.6], [0.8]]),), {}))
    z("prw-start", lambda p: (DR.projection_robust_wasserstein, (p.rng.normal(size=(4, 3)), p.rng.normal(size=(5, 3)), p.a, p.b, 0.1), dict(U0=np.eye(3)[:, :2].copy(), reg=1.0, maxiter=3)))
    seeded("prw", lambda p: (DR.projection_robust_wasserstein, (p.rng.normal(size=(4, 3)), p.rng.normal(size=(5, 3)), p.a, p.b, 0.1), dict(reg=1.0, k=1, maxiter=3, random_state=sd(p))))
    z("ewca", lambda p: (DR.ewca, (p.rng.normal(size=(6, 3)),), dict(U0=np.eye(3)[:, :2].copy(), maxiter=2, maxiter_sink=20, k=2)))
try:
    import cvxpy  # noqa
    NOTORCH.add("brenier")
    z("brenier", lambda p: (ot.mapping.nearest_brenier_potential_fit, (p.X, p.X + 0.3), dict(its=2, log=True)))
except ImportError:
    pass
NAMES = sorted(Z)
OVERWRITES = ["gmm-barycenter"]  # recorded in known_findings.txt
NAMES = [n for n in NAMES if n not in OVERWRITES]

# calls that draw from a generator the caller has not seeded: used as history only
RANDOM = {
    "sw": lambda p: ot.sliced_wasserstein_distance(p.X, p.Y, n_projections=3),
    "sphere": lambda p: ot.sliced_wasserstein_sphere_unif(sphere(p.rng.normal(size=(5, 3))), n_projections=3),
    "asgd": lambda p: ot.stochastic.solve_semi_dual_entropic(p.a, p.b, p.M, 0.5, "SAG", numItermax=5),
    "classif": lambda p: ot.datasets.make_data_classif("3gauss", 5),
    "backend": lambda p: ot.backend.get_backend(p.a).rand(3),
    "bures": lambda p: ot.gaussian.bures_wasserstein_barycenter(p.X[:3], covs_(p, 3), method="stochastic_gradient_descent", num_iter=3),
    "sr": lambda p: G.semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, G0="random", max_iter=2),
    "tic": lambda p: (ot.tic(), ot.toq()),
}


# ---------------------------------------------------------------------------
# observation
# ---------------------------------------------------------------------------


def leaves(x, out=None, key=""):
    """arrays and numbers of a nested structure with their paths"""
    out = [] if out is None else out
    if isinstance(x, ot.utils.OTResult):
        x = {k: v for k, v in vars(x).items() if k not in ("_backend", "_lazy_plan")}
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            if "time" not in str(k):
                leaves(x[k], out, "%s[%s]" % (key, k))
    elif isinstance(x, (list, tuple, set)):
        for i, v in enumerate(x):
            leaves(v, out, "%s[%d]" % (key, i))
    elif hasattr(x, "toarray"):
        out.append((key, x.toarray()))
    elif type(x).__name__ in ("Tensor", "Parameter"):
        x = x.detach()
        out.append((key, (x.to_dense() if x.layout != sys.modules["torch"].strided else x).cpu().numpy()))
    elif isinstance(x, (np.ndarray, np.generic, float, int, bool, complex)):
        out.append((key, x))
    elif isinstance(x, str):
        out.append((key, np.frombuffer(x.encode(), np.uint8)))
    return out


def digest(x):
    """a copy of the raw content of every array"""
    return [(k, np.asarray(v).dtype.str, np.shape(v), np.asarray(v).tobytes()) for k, v in leaves(x)]


def diff(d1, d2, what):
    """description of the first difference, None when identical"""
    if [x[0] for x in d1] != [x[0] for x in d2]:
        return "%s: different structure %s / %s" % (what, [x[0] for x in d1], [x[0] for x in d2])
    for x, y in zip(d1, d2):
        if x != y:
            if x[1:3] != y[1:3]:
                return "%s%s: %s / %s" % (what, x[0], x[1:3], y[1:3])
            u, v = (np.frombuffer(w[3], w[1]).reshape(w[2]) for w in (x, y))
            if np.array_equal(u, v, equal_nan=u.dtype.kind in "fc"):
                continue  # signs of zero and of NaN
            return "%s%s: %s / %s" % (what, x[0], core._short(u), core._short(v))
    return None


def state():
    s = np.random.get_state()
    return {
        "numpy random state": (s[0], s[1].tobytes(), s[2:]),
        "random state": random.getstate(),
        "warning filters": list(warnings.filters),
        "floating point errors": np.geterr(),
        "print options": str(np.get_printoptions()),
        "environment": dict(os.environ),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
        "threads": threading.active_count(),
    }


@contextlib.contextmanager
def captured():
    """everything written to the standard outputs, including by native code"""
    out = []
    so, se = sys.stdout, sys.stderr
    so.flush(), se.flush()
    with tempfile.TemporaryFile() as f:
        old = os.dup(1), os.dup(2)
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        os.dup2(f.fileno(), 1)
        os.dup2(f.fileno(), 2)
        try:
            yield out
        finally:
            out.append(sys.stdout.getvalue() + sys.stderr.getvalue())
            sys.stdout, sys.stderr = so, se
            os.dup2(old[0], 1)
            os.dup2(old[1], 2)
            os.close(old[0])
            os.close(old[1])
            f.seek(0)
            out.append(f.read().decode(errors="replace"))


def arrays_of(x, out=None):
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, dict):
        [arrays_of(v, out) for v in x.values()]
    elif isinstance(x, (list, tuple)):
        [arrays_of(v, out) for v in x]
    return out


def lay(x, order, ro=False):
    """deep copy of the arguments with the given memory order"""
    if isinstance(x, np.ndarray):
        y = np.array(x, order=order)
        y.flags.writeable = not ro
        return y
    if isinstance(x, dict):
        return {k: lay(v, order, ro) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(lay(v, order, ro) for v in x)
    return x


def call(f, args, kw):
    return f(*args, **kw)


def scribble(x, keep):
    """overwrite the caller's copy of a result: nobody else may depend on it"""
    for y in arrays_of(x):
        if y.flags.writeable and y.dtype.kind == "f" and not any(np.may_share_memory(y, k) for k in keep):
            y[...] = -7.5


class Dirty(Exception):
    pass


def one(mon, rng, name):
    p = P(rng)
    f, args, kw = Z[name](p)
    mon.event("solver-calls")
    if name in SEEDED:
        mon.event("seeded")
    return p, f, args, kw


@core.family(FAMILIES, len(NAMES), thorough_n=6 * len(NAMES), weight=4, cpu_limit=120)
def pure(mon, rng, idx):
    check_pure(mon, rng, NAMES[idx % len(NAMES)])


@core.family(FAMILIES, len(OVERWRITES), thorough_n=6 * len(OVERWRITES), cpu_limit=120)
def overwriting(mon, rng, idx):
    check_pure(mon, rng, OVERWRITES[idx % len(OVERWRITES)])


def check_pure(mon, rng, name):
    order = gen.pick(rng, "CCF")
    if order == "F":
        mon.event("fortran-order")
    p, f, args, kw = one(mon, rng, name)
    args, kw = lay(args, order), lay(kw, order)
    mon.case(*arrays_of((args, kw)), name=name, order=order)
    d0 = digest((args, kw))
    warnings.simplefilter(gen.pick(rng, ("ignore", "default")))
    np.random.seed(int(rng.integers(1 << 30)))
    random.seed(int(rng.integers(1 << 30)))
    s0 = state()
    with warnings.catch_warnings(record=True):
        s0f = list(warnings.filters)
        with captured() as out:
            r1 = call(f, args, kw)
        mon.true("global-state", list(warnings.filters) == s0f, lambda: "%s: warning filters changed" % name)
    s1 = state()
    bad = [k for k in s0 if s0[k] != s1[k]]
    mon.true("global-state", not bad, lambda: "%s changed the %s" % (name, ", ".join(bad)))
    mon.true("silent", name in PRINTS or not "".join(out).strip(), lambda: "%s printed %r" % (name, "".join(out)[:300]))
    e = diff(d0, digest((args, kw)), "")
    mon.true("input-intact", e is None, lambda: "%s: argument %s" % (name, e))
    e1 = digest(r1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        # read-only arguments
        a2, k2 = lay(args, order, True), lay(kw, order, True)
        ok = True
        try:
            r2 = call(f, a2, k2)
        except ValueError as ex:
            if "read-only" not in str(ex):
                raise
            ok = "buffer source" in str(ex)
            mon.event("readonly-refused")
            r2 = None
        mon.true("input-readonly", ok, "%s writes into its arguments" % name)
        if r2 is not None:
            e = diff(e1, digest(r2), "result")
            mon.true("repeat", e is None, lambda: "%s with read-only arguments: %s" % (name, e))
        # history of other calls, with other random numbers
        keep = arrays_of((args, kw))
        scribble(r1, keep)
        np.random.seed(int(rng.integers(1 << 30)))
        for _ in range(3):
            q = P(rng)
            other = gen.pick(rng, NAMES + sorted(RANDOM) * 4)
            mon.event("history-calls")
            mon.desc["history"] = other
            if other in RANDOM:
                mon.event("random-solvers")
                with captured():
                    RANDOM[other](q)
            else:
                g, ga, gk = Z[other](q)
                scribble(call(g, ga, gk), arrays_of((ga, gk)))
        r3 = call(f, args, kw)
        e = diff(e1, digest(r3), "result")
        mon.true("history", e is None, lambda: "%s after other calls (last %s): %s" % (name, other, e))


@core.family(FAMILIES, 80, thorough_n=1000, weight=3, cpu_limit=200)
def threads(mon, rng, idx):
    k = int(rng.integers(2, 5))
    jobs = []
    same = rng.random() < 0.4
    for i in range(k):
        name = gen.pick(rng, sorted(SEEDED) if rng.random() < 0.4 else NAMES)
        if same and jobs:
            name = jobs[0][0]
        p, f, args, kw = one(mon, rng, name)
        if jobs and jobs[0][0] == name and rng.random() < 0.5:
            f, args, kw = jobs[0][1:4]  # the very same objects
        jobs.append((name, f, args, kw))
    mon.case(*arrays_of([j[2] for j in jobs]), names=",".join(j[0] for j in jobs))
    warnings.simplefilter("ignore")
    ref = [digest(call(*j[1:])) for j in jobs]
    before = [digest(j[2:4]) for j in jobs]
    res, err = [[] for _ in jobs], []
    gate = threading.Barrier(k)

    def body(i):
        try:
            gate.wait()
            for _ in range(3):
                res[i].append(digest(call(*jobs[i][1:])))
        except BaseException as ex:
            err.append((i, ex))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=body, args=(i,)) for i in range(k)]
        [t.start() for t in th]
        [t.join() for t in th]
    finally:
        sys.setswitchinterval(old)
    for i, ex in err:
        mon.fail("threads", "%s concurrently with %s: %r" % (jobs[i][0], [j[0] for j in jobs], ex))
    for i, j in enumerate(jobs):
        for r in res[i]:
            mon.event("thread-runs")
            e = diff(ref[i], r, "result")
            mon.true("threads", e is None, lambda: "%s concurrently with %s: %s" % (j[0], [x[0] for x in jobs], e))
        e = diff(before[i], digest(j[2:4]), "")
        mon.true("threads-intact", e is None, lambda: "%s: argument %s" % (j[0], e))


# calls that need automatic gradients
T = {k: v[0] for k, v in c28.S.items() if "t" in v[1]}
T["emd-1d-backprop"] = lambda p: (ot.lp.emd_1d_dual_backprop, (np.sort(p.x), np.sort(p.y), p.a, p.b), dict(p=2))
T["uot-1d"] = lambda p: (ot.unbalanced.uot_1d, (p.x, p.y, 1.0, p.a, p.b), dict(log=True))
for k_ in ("sliced_unbalanced_ot", "unbalanced_sliced_ot"):
    T[k_] = lambda p, k=k_: (getattr(ot.unbalanced, k), (p.X, p.Y, 1.0, p.a, p.b), dict(n_projections=4, seed=sd(p), log=True, numItermax=3))
T["debiased-log"] = lambda p: (ot.bregman.barycenter_debiased, (p.A, p.D, 0.2), dict(method="sinkhorn_log", numItermax=30, log=True))
for k_ in ("convolutional_barycenter2d", "convolutional_barycenter2d_debiased"):
    T[k_ + "-log"] = lambda p, k=k_: (getattr(ot.bregman, k), (p.rng.dirichlet(np.ones(16), 2).reshape(2, 4, 4), 0.05), dict(method="sinkhorn_log", numItermax=30, log=True))
TNAMES = sorted(T)


@core.family(FAMILIES, len(TNAMES), thorough_n=6 * len(TNAMES), weight=3, cpu_limit=120)
def tensors(mon, rng, idx):
    """the same for PyTorch tensors (which share memory with their NumPy views)"""
    name = TNAMES[idx % len(TNAMES)]
    import torch

    nx = ot.backend.get_backend(torch.zeros(1))
    p = P(rng)
    f, args, kw = T[name](p)
    leaf = rng.random() < 0.5 and name not in ("labels-to-masks", "label-normalization")
    args, kw = [c28.conv(nx, x) for x in args], c28.ckw(nx, kw, None)
    tens = [t for t in tree(args) + tree(kw) if t.dtype.is_floating_point]
    mon.case(p.a, p.b, p.X, p.Y, name=name, leaf=leaf)
    mon.event("tensors", len(tens))
    if leaf:
        mon.event("leaf-tensors", len(tens))
        for t in tens:
            t.requires_grad_(True)
    d0 = digest((args, kw))
    v0 = [(t._version, t.requires_grad, t.grad is None) for t in tens]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = call(f, args, kw)
        e1 = digest(r)
        e = diff(d0, digest((args, kw)), "")
        mon.true("tensor-intact", e is None, lambda: "%s: argument %s" % (name, e))
        v1 = [(t._version, t.requires_grad, t.grad is None) for t in tens]
        mon.true("tensor-intact", v0 == v1, lambda: "%s: (version, requires_grad, no grad) %s / %s" % (name, v0, v1))
        del r
        e = diff(e1, digest(call(f, args, kw)), "result")
        mon.true("repeat", e is None, lambda: "%s (tensors): %s" % (name, e))


def tree(x):
    import torch

    if isinstance(x, torch.Tensor):
        return [x]
    if isinstance(x, dict):
        return [t for v in x.values() for t in tree(v)]
    if isinstance(x, (list, tuple)):
        return [t for v in x for t in tree(v)]
    return []
