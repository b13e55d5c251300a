"""Source of properties.jsonl (run tools/gen_meta.py)."""

P = []


def p(id, title, statement, text, why, files, mechanism, observe, over=("inputs",), state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                     mechanism=[dict(zip(("name", "where"), m)) for m in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


p("C01", "Exact OT returns a feasible, optimal plan and its true cost",
  "Every exact (unregularised) discrete OT solver returns, whenever the two masses agree, a non-negative plan whose marginals are the given weights, that no other plan beats in cost, and that has at most n+m-1 positive entries. The cost it reports is the inner product of that plan with the given cost matrix. This holds for dense, sparse and on-the-fly (coordinate) costs, one or several target histograms, zero and tiny weights, ties, duplicates and negative costs.",
  "all weight vectors of equal mass (including zeros, 1e-7 weights, masses 1e-3..1e3) and all finite cost matrices / edge lists admitting a plan / coordinate clouds; any memory layout or numeric dtype",
  "Tests compare a few random or hand-made instances with stored values; optimality for every cost/weight combination (degenerate ties, zero weights, negative costs) is a universally quantified claim about a pivoting algorithm with many code paths.",
  ["ot/lp/_network_simplex.py", "ot/lp/emd_wrap.pyx", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/lp/full_bipartitegraph.h", "ot/lp/sparse_bipartitegraph.h"],
  [("spanning-tree pivoting", "ot/lp/network_simplex_simple.h"), ("zero-weight filtering and re-inflation", "ot/lp/_network_simplex.py")],
  ["ot.emd", "ot.emd2", "ot.lp.emd2_lazy", "ot.lp.emd_1d"],
  state=[("flow / state / pi arrays", "basis of the simplex", "ot/lp/network_simplex_simple.h")])

p("C02", "Dual potentials returned by exact OT certify optimality",
  "The dual potentials returned with an exact OT solution satisfy u_i + v_j <= M_ij on every admissible pair (also for atoms of zero weight in the dense solver), hold with equality wherever the plan carries mass, and their dual objective equals the primal cost. With centring on they are normalised so that the two weighted dual sums agree; with several histograms each gets its own certificate.",
  "all feasible dense / sparse / lazy exact OT problems, centred or not",
  "Tests check the duality gap on one or two positive-weight instances; sensitivity analysis and gradients rely on it for every degenerate and zero-weight instance.",
  ["ot/lp/_network_simplex.py", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h"],
  [("center_ot_dual / estimate_dual_null_weights", "ot/lp/_network_simplex.py"), ("updatePotential", "ot/lp/network_simplex_simple.h")],
  ["log['u'], log['v'] of ot.emd / ot.emd2 / ot.lp.emd2_lazy", "ot.lp.center_ot_dual", "ot.lp.estimate_dual_null_weights"])

p("C03", "Exact OT is the same whatever route computes it",
  "The optimal value does not depend on how the exact problem is posed: number of threads, warm-start potentials (good, stale or nonsense), dense matrix versus complete sparse matrix versus on-the-fly coordinates, transposing the problem, permuting the atoms, splitting an atom, adding zero-weight atoms, or concurrent solves in other threads. Scaling masses or costs scales the value, and adding row/column constants to the cost shifts it by their weighted sums.",
  "all pairs (problem, equivalent reformulation), including 1..8 solver threads, arbitrary warm starts and concurrent callers",
  "Tests run each route on its own example; equality across all routes and symmetries is a relational claim over pairs of executions.",
  ["ot/lp/_network_simplex.py", "ot/lp/EMD_wrapper.cpp", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h"],
  [("warmstartInit", "ot/lp/network_simplex_simple.h"), ("OpenMP block search pivot", "ot/lp/network_simplex_simple_omp.h"), ("lazy costs", "ot/lp/network_simplex_simple.h")],
  ["ot.emd2 and variants under reformulation"], over=("inputs", "schedules", "configurations"))

p("C04", "Solvers never present an unconverged or infeasible result as success",
  "When an exact or iterative solver stops because of its iteration cap, infeasible or mismatched marginals, impossible edges or a numerical failure, the caller is told: an exception, a warning or a non-optimal status, never a silent success. Conversely, a result reported as converged meets the tolerance it was asked for, and invalid arguments (unknown methods, wrong shapes, unequal masses) are rejected.",
  "all problems and all iteration caps / tolerances, including caps of 0..few iterations and infeasible sparse graphs",
  "Tests trigger one warning per solver; the claim ranges over every stopping point of every solver.",
  ["ot/lp/_network_simplex.py", "ot/lp/emd_wrap.pyx", "ot/bregman/_sinkhorn.py", "ot/unbalanced/_sinkhorn.py", "ot/solvers.py"],
  [("result codes -> warnings", "ot/lp/emd_wrap.pyx check_result"), ("stopThr tests", "ot/bregman/_sinkhorn.py")],
  ["warnings, log['warning'], log['result_code'], log['err'], exceptions"], over=("inputs", "configurations"))

p("C05", "Native code is free of memory errors, UB and data races",
  "For every input that the public Python API accepts, the compiled extensions neither read nor write out of bounds, use freed or uninitialised memory, overflow signed integers nor crash. The multi-threaded solver and concurrent solves from several threads have no data races.",
  "all inputs reaching the compiled solvers (all shapes incl. 1xN, zero weights, sparse graphs with unused nodes, NaN/inf costs, early stops, warm starts) and all thread schedules",
  "Unit tests run an uninstrumented build on well-formed inputs: an out-of-bounds read of a few bytes or a benign-looking race passes them.",
  ["ot/lp/EMD_wrapper.cpp", "ot/lp/emd_wrap.pyx", "ot/lp/network_simplex_simple.h", "ot/lp/network_simplex_simple_omp.h", "ot/lp/full_bipartitegraph.h", "ot/lp/full_bipartitegraph_omp.h", "ot/lp/sparse_bipartitegraph.h", "ot/partial/partial_cython.pyx", "ot/bsp/bsp_wrapper.cpp"],
  [("array sizing in init/reset", "ot/lp/network_simplex_simple.h"), ("omp parallel pivot search", "ot/lp/network_simplex_simple_omp.h")],
  ["AddressSanitizer / UBSan builds of the extensions", "ThreadSanitizer build of the OpenMP solver"], over=("inputs", "schedules"))

p("C06", "1D optimal transport equals the exact solution on the line",
  "The closed-form 1D solvers (plans, costs, Wasserstein-p, quantile-based losses, with potentials) give the value of the exact OT problem for the corresponding convex cost, on any real line data with any weights, in any input order and for every slice of a batch. Their plans are feasible and monotone, and p-Wasserstein distances are symmetric, non-negative, zero only between equal measures, and translation/scaling equivariant.",
  "all finite samples (ties, duplicates, unsorted, n != m, 1 point), weights incl. zeros, p >= 1, dense or sparse plan output",
  "Tests use a few Gaussian samples; merging of ties, zero weights and unequal sizes only shows on particular inputs.",
  ["ot/lp/solver_1d.py", "ot/lp/emd_wrap.pyx"],
  [("emd_1d_sorted sweep", "ot/lp/emd_wrap.pyx"), ("quantile function merge", "ot/lp/solver_1d.py")],
  ["ot.emd_1d", "ot.emd2_1d", "ot.wasserstein_1d", "ot.lp.wasserstein_1d"])

p("C07", "Optimal transport on the circle is exact and rotation invariant",
  "Circular Wasserstein distances equal the exact OT value for the geodesic cost on the unit circle (linear OT and semidiscrete versions: their defining formulas) for every weighting. They are invariant under common rotations and reflections, symmetric, and zero between equal measures.",
  "all samples in [0,1) (wrap-around, ties, opposite points), weights, p >= 1, rotations by any real",
  "Tests check a handful of seeds; wrap-around and cut placement depend on the data.",
  ["ot/lp/solver_circle.py"],
  [("binary search / p=1 level median", "ot/lp/solver_circle.py")],
  ["ot.wasserstein_circle", "ot.lp.binary_search_circle", "ot.lp.wasserstein1_circle", "ot.lp.semidiscrete_wasserstein2_unif_circle", "ot.lp.linear_circular_ot"])

p("C08", "Barycenter and multi-marginal solvers attain what they minimise",
  "The LP fixed-support barycenter is a probability vector minimising the weighted sum of exact OT costs; free-support, generalised and generic-cost barycenter iterations never increase that sum and return the requested shape; multi-marginal gluing of pairwise plans has exactly the given marginals. The multi-marginal solver's primal, dual and returned potentials are consistent with the input distributions.",
  "all families of input measures, weights and initialisations",
  "Tests check one example each; descent and optimality are claims over all inputs and iterations.",
  ["ot/lp/_barycenter_solvers.py", "ot/lp/dmmot.py"],
  [("interior point LP", "ot/lp/_barycenter_solvers.py"), ("fixed point barycentric updates", "ot/lp/_barycenter_solvers.py")],
  ["ot.lp.barycenter", "ot.lp.free_support_barycenter", "ot.lp.generalized_free_support_barycenter", "ot.lp.free_support_barycenter_generic_costs", "ot.lp.NorthWestMMGluing", "ot.lp.dmmot_monge_1dgrid_optimize"], over=("inputs", "histories"))

p("C09", "All Sinkhorn variants compute the one entropic OT plan",
  "At convergence every Sinkhorn variant (plain, log-domain, stabilised, epsilon-scaling, greedy, screened without dropping, several histograms, warm-started) returns the unique entropic OT plan: non-negative, with the given marginals, of Gibbs form for the given cost and regularisation, and so all agree with each other. Reported losses equal the documented functional of that plan and reported potentials reproduce it.",
  "all weights (positive; zeros where supported), costs, regularisations and warm starts for which the method converges",
  "Tests compare variants on one random problem; agreement and the KKT conditions are universally quantified over problems and histories of iterations.",
  ["ot/bregman/_sinkhorn.py", "ot/bregman/_screenkhorn.py", "ot/bregman/_dictionary.py", "ot/bregman/_utils.py"],
  [("alternating scaling", "ot/bregman/_sinkhorn.py"), ("log-domain absorption", "ot/bregman/_sinkhorn.py")],
  ["ot.sinkhorn", "ot.sinkhorn2", "ot.bregman.greenkhorn", "ot.bregman.screenkhorn", "ot.bregman.sinkhorn_log", "ot.bregman.sinkhorn_epsilon_scaling", "ot.bregman.sinkhorn_stabilized"], over=("inputs", "configurations", "histories"))

p("C10", "Sample-based Sinkhorn agrees with matrix Sinkhorn",
  "Entropic OT computed from samples (in full, in batches with lazily evaluated plans, with automatically scaled divergences) equals entropic OT computed from the corresponding cost matrix, for every batch size. The debiased Sinkhorn divergence is non-negative, symmetric and zero between equal measures.",
  "all samples, weights, metrics, batch sizes, regularisations",
  "Tests use one batch size that divides or not the data once; the relation must hold for every size, remainder and metric.",
  ["ot/bregman/_empirical.py", "ot/bregman/_geomloss.py", "ot/lowrank.py", "ot/utils.py"],
  [("batched log-sum-exp", "ot/bregman/_empirical.py"), ("LazyTensor", "ot/utils.py")],
  ["ot.bregman.empirical_sinkhorn", "ot.bregman.empirical_sinkhorn2", "ot.bregman.empirical_sinkhorn_divergence", "ot.bregman.empirical_sinkhorn_nystroem"])

p("C11", "Entropic barycenters are fixed points with the prescribed marginals",
  "At convergence every entropic barycenter solver (plain, log, stabilised, debiased, convolutional, free-support Sinkhorn) returns probability vectors that satisfy the optimality conditions of the regularised barycenter problem, do not depend on the order of inputs or on the chosen algorithm, and reduce to known special cases. Joint-class-proportion and unmixing solvers return valid proportions.",
  "all stacks of histograms, weights, regularisations",
  "Tests compare two methods on one pair of Gaussians.",
  ["ot/bregman/_barycenter.py", "ot/bregman/_convolutional.py", "ot/bregman/_dictionary.py"],
  [("iterative Bregman projections", "ot/bregman/_barycenter.py"), ("separable convolution kernels", "ot/bregman/_convolutional.py")],
  ["ot.bregman.barycenter*", "ot.bregman.convolutional_barycenter2d*", "ot.bregman.jcpot_barycenter", "ot.bregman.unmix"])

p("C12", "Unbalanced OT solvers minimise the documented functional",
  "Every unbalanced OT solver returns a non-negative plan that is a global minimiser of the documented (convex) functional: cost, entropic/KL/L2 regulariser against the reference measure, and KL/L2/TV marginal penalties with possibly different or infinite weights. Reported costs equal that functional at the plan, all methods agree, and they tend to balanced OT when the penalty is infinite.",
  "all positive measures of unequal mass, costs, penalties (scalars, pairs, infinity), regularisers and reference measures",
  "Tests check first-order conditions for one instance per method; global optimality over all parameter combinations is not sampled.",
  ["ot/unbalanced/_sinkhorn.py", "ot/unbalanced/_mm.py", "ot/unbalanced/_lbfgs.py", "ot/unbalanced/_solver_1d.py", "ot/unbalanced/_sliced.py"],
  [("generalised Sinkhorn scaling", "ot/unbalanced/_sinkhorn.py"), ("majorisation-minimisation", "ot/unbalanced/_mm.py"), ("L-BFGS-B objective/gradient", "ot/unbalanced/_lbfgs.py"), ("Frank-Wolfe 1D", "ot/unbalanced/_solver_1d.py")],
  ["ot.unbalanced.*"], over=("inputs", "configurations"))

p("C13", "Partial OT moves exactly the requested mass at minimal cost",
  "Partial OT solvers return non-negative plans whose marginals are dominated by the given weights, whose total mass is the requested one, and (unregularised) whose cost is minimal among all such plans; the Lagrangian version minimises cost minus multiplier times mass. The 1D partial solver gives, for every transported mass along its path, the optimum of the corresponding partial assignment.",
  "all weights, costs, masses in (0, min(|a|,|b|)], number of dummy points, 1D samples",
  "Tests use one mass on two clouds.",
  ["ot/partial/partial_solvers.py", "ot/partial/partial_cython.pyx"],
  [("dummy point extension", "ot/partial/partial_solvers.py"), ("1D partial sweep", "ot/partial/partial_cython.pyx")],
  ["ot.partial.partial_wasserstein", "ot.partial.partial_wasserstein2", "ot.partial.partial_wasserstein_lagrange", "ot.partial.partial_wasserstein_1d", "ot.partial.entropic_partial_wasserstein"])

p("C14", "Conditional-gradient OT solvers descend and stay feasible",
  "The generic (generalised, semi-relaxed, partial) conditional-gradient solvers and line searches keep every iterate feasible, never increase the objective from one iteration to the next, log exactly the objective they minimise, and for convex regularisers reach the global optimum. Exact quadratic line searches return the minimiser of the polynomial on [0,1].",
  "all convex or smooth regularisers, costs, weights, starting plans and iteration caps",
  "Tests check a final marginal on one example; monotone descent is a claim on the whole iteration history.",
  ["ot/optim.py"],
  [("line_search_armijo / solve_1d_linesearch_quad", "ot/optim.py"), ("generic_conditional_gradient", "ot/optim.py")],
  ["ot.optim.cg", "ot.optim.gcg", "ot.optim.semirelaxed_cg", "ot.optim.partial_cg", "ot.optim.solve_1d_linesearch_quad"], over=("inputs", "histories"))

p("C15", "Gromov-Wasserstein solvers return feasible plans valued truthfully",
  "Every (fused, semi-relaxed, partial) Gromov-Wasserstein solver returns a plan in its constraint set, and the distance it reports is the documented quadratic objective of that plan for the chosen loss, symmetric or asymmetric structures included. It never reports a value above the one of the supplied initial plan, and is zero/invariant for isomorphic inputs initialised at the isomorphism.",
  "all structure matrices (symmetric or not), features, weights, alpha, losses, initial plans",
  "Tests check identical graphs up to permutation; truthfulness of values on arbitrary (asymmetric, weighted, KL) problems is not sampled.",
  ["ot/gromov/_gw.py", "ot/gromov/_utils.py", "ot/gromov/_semirelaxed.py", "ot/gromov/_partial.py", "ot/optim.py"],
  [("init_matrix / gwloss / gwggrad factorisation", "ot/gromov/_utils.py"), ("conditional gradient", "ot/optim.py")],
  ["ot.gromov.gromov_wasserstein*", "ot.gromov.fused_gromov_wasserstein*", "ot.gromov.semirelaxed_*", "ot.gromov.partial_*"], over=("inputs", "histories"))

p("C16", "Entropic and Bregman Gromov-Wasserstein plans are consistent",
  "Entropic (projected and proximal), Bregman-alternated and semi-relaxed entropic GW / fused GW return non-negative plans with the prescribed marginals whose reported values are the documented objective at the plan. At convergence the plan is the entropic OT plan of its own linearised cost (stationarity), and the proximal solvers do not end above their starting objective.",
  "all structures, features, weights, regularisation, losses and solvers for which the method converges",
  "Tests check marginals on one example to 4 decimals.",
  ["ot/gromov/_bregman.py", "ot/gromov/_utils.py", "ot/gromov/_semirelaxed.py", "ot/gromov/_partial.py"],
  [("outer PGD/PPA loop over Sinkhorn", "ot/gromov/_bregman.py")],
  ["ot.gromov.entropic_*", "ot.gromov.BAPG_*"])

p("C17", "Unbalanced GW and CO-Optimal Transport solve what they document",
  "CO-OT, unbalanced CO-OT and fused unbalanced GW return non-negative sample and feature plans with the prescribed (relaxed) marginals, and their reported costs decompose as documented at the returned plans. Balanced CO-OT is invariant under permutations of rows and columns and never worse than its initialisation.",
  "all data matrices, weights, penalties, divergences",
  "Tests check one example per option.",
  ["ot/coot.py", "ot/gromov/_unbalanced.py"],
  [("block coordinate descent", "ot/coot.py, ot/gromov/_unbalanced.py")],
  ["ot.coot.co_optimal_transport*", "ot.gromov.fused_unbalanced_*", "ot.gromov.unbalanced_co_optimal_transport*"], over=("inputs", "histories"))

p("C18", "GW barycenters and dictionaries keep their structure and descend",
  "GW / fused-GW barycenters (exact, entropic, semi-relaxed) return symmetric structures of the requested size that are the optimal update for the returned plans, honour fixed structures/features, and do not increase the barycenter loss. GW dictionary unmixing returns weights in the simplex with truthful reconstruction losses, and dictionary learning respects its constraints.",
  "all families of graphs, weights, sizes, losses, initialisations",
  "Tests check shapes on two graphs.",
  ["ot/gromov/_gw.py", "ot/gromov/_bregman.py", "ot/gromov/_semirelaxed.py", "ot/gromov/_dictionary.py", "ot/gromov/_utils.py"],
  [("update_barycenter_structure / feature", "ot/gromov/_utils.py")],
  ["ot.gromov.gromov_barycenters", "ot.gromov.fgw_barycenters", "ot.gromov.entropic_*_barycenters", "ot.gromov.gromov_wasserstein_linear_unmixing"], over=("inputs", "histories"))

p("C19", "Approximate GW solvers return genuine couplings",
  "Sampled, pointwise, quantized and low-rank GW solvers return plans with exactly the prescribed marginals (in factored or dense form), partitions that cover every node exactly once, and estimates that agree with the exact objective of the plan when sampling is exhaustive.",
  "all structures, weights, partition counts, ranks and random seeds",
  "Tests run one seed; the guarantees are over all seeds and partitions.",
  ["ot/gromov/_estimators.py", "ot/gromov/_quantized.py", "ot/gromov/_lowrank.py"],
  [("quantization and gluing of local 1D plans", "ot/gromov/_quantized.py"), ("Dykstra low-rank projections", "ot/gromov/_lowrank.py, ot/lowrank.py")],
  ["ot.gromov.pointwise_gromov_wasserstein", "ot.gromov.sampled_gromov_wasserstein", "ot.gromov.quantized_*", "ot.gromov.lowrank_gromov_wasserstein_samples"])

p("C20", "Dual, stochastic and smooth OT solvers solve their regularised problem",
  "Smooth (L2, entropic, sparsity-constrained) primal/dual/semi-dual solvers return the optimum of the regularised problem they document, with consistent dual potentials and exact gradients, and sparsity-constrained plans respect the cap. Stochastic semi-dual and dual solvers' plans have the documented Gibbs form and converge to the entropic optimum.",
  "all weights, costs, regularisers, strengths and stopping rules",
  "Tests compare with Sinkhorn on one instance.",
  ["ot/smooth.py", "ot/stochastic.py"],
  [("L-BFGS on (semi-)dual", "ot/smooth.py"), ("SAG/ASGD", "ot/stochastic.py")],
  ["ot.smooth.smooth_ot_dual", "ot.smooth.smooth_ot_semi_dual", "ot.stochastic.*"])

p("C21", "The regularisation path solves UOT at every penalty",
  "For every point of the computed regularisation path of L2-unbalanced (and semi-relaxed) OT, and every interpolated penalty, the returned plan is the minimiser of the corresponding penalised problem. The path's penalties are monotone and it starts at the null plan.",
  "all weights, positive costs and final penalties",
  "Tests compare only the end of the path on one instance; optimality along the whole path history is the guarantee.",
  ["ot/regpath.py"],
  [("active-set updates", "ot/regpath.py")],
  ["ot.regpath.regularization_path", "ot.regpath.compute_transport_plan"], over=("inputs", "histories"))

p("C22", "Domain-adaptation estimators transport consistently with their coupling",
  "Every domain-adaptation transport class yields a coupling with the marginals of the fitted samples, transforms training samples to the barycentric image under that coupling (and new samples by the documented out-of-sample rule, independent of batching), and propagates labels as convex combinations of the fitted ones (JCPOT: as the mean over domains of the class-wise row-normalised mass). Semi-supervised label information only forbids transport between differently labelled pairs, and fitting leaves the estimator's parameters and inputs unchanged.",
  "all samples, labels (missing included), estimator classes and parameters, batch sizes",
  "Tests check shapes and marginals on one mixture.",
  ["ot/da.py"],
  [("BaseTransport.fit/transform/inverse_transform", "ot/da.py")],
  ["ot.da.*Transport fit / transform / inverse_transform / transform_labels"], over=("inputs", "configurations"))

p("C23", "Mapping estimation recovers maps that match their definition",
  "Linear Wasserstein mapping between Gaussians pushes source moments on target moments; joint OT mapping alternation never increases its objective, keeps a feasible plan and returns the regression for that plan; nearest-Brenier potential fitting returns values/gradients satisfying the strong-convexity/smoothness interpolation inequalities.",
  "all sample clouds, kernels, regularisations",
  "Tests check shapes and one moment.",
  ["ot/mapping.py", "ot/gaussian.py"],
  [("block coordinate descent", "ot/mapping.py"), ("QCQP", "ot/mapping.py")],
  ["ot.mapping.joint_OT_mapping_linear", "ot.mapping.joint_OT_mapping_kernel", "ot.mapping.nearest_brenier_potential_fit", "ot.gaussian.bures_wasserstein_mapping"], over=("inputs", "histories"))

p("C24", "Gaussian and mixture OT follow the Bures geometry",
  "Bures-Wasserstein distances, maps, barycenters and GMM couplings satisfy their closed forms: the map pushes one Gaussian exactly on the other, the distance equals mean shift plus Bures metric, is symmetric, zero on equal inputs and satisfies the triangle inequality, and barycenters are fixed points minimising the weighted distances. Mixture OT cost equals exact OT between components with Bures costs, and empirical versions equal the population formula at sample moments.",
  "all means and positive (semi-)definite covariances, weights, dimensions, batch shapes",
  "Tests check diagonal or random instances; metric axioms are universally quantified over triples.",
  ["ot/gaussian.py", "ot/gmm.py"],
  [("fixed-point barycenter", "ot/gaussian.py"), ("batched Bures costs", "ot/gmm.py")],
  ["ot.gaussian.*", "ot.gmm.*"])

p("C25", "Sliced distances average exact 1D transports",
  "Sliced, max-sliced, min-pivot/expected plans and spherical sliced distances equal the documented aggregate of the exact 1D (or circular) transports over the given or seeded projections; they are non-negative, symmetric, zero on equal measures, translation/rotation consistent and reproducible from the seed, and plans built from slices are feasible.",
  "all samples, weights, projections, p, seeds",
  "Tests check a few identities on one seed.",
  ["ot/sliced/_sliced_distances.py", "ot/sliced/_sliced_plans.py", "ot/sliced/_spherical_sliced.py", "ot/sliced/_utils.py"],
  [("projection then 1D solver", "ot/sliced")],
  ["ot.sliced_wasserstein_distance", "ot.max_sliced_wasserstein_distance", "ot.sliced.*", "ot.sliced_wasserstein_sphere"])

p("C26", "The unified solver API is coherent with itself and the documented problem",
  "solve, solve_sample and solve_gromov return result objects whose plan, value, linear/quadratic values, potentials, marginals and status describe one and the same solution of the documented problem for the requested regularisation, penalty, weights, metric and method, never silently dropping an argument. Sample-based solving equals matrix-based solving on the corresponding cost.",
  "all combinations of regulariser, unbalanced type, weights, metric, method, laziness and initial plan that the API accepts",
  "Tests iterate over option grids but mostly compare shapes; coherence over all combinations and data is not settled.",
  ["ot/solvers.py", "ot/utils.py"],
  [("dispatch on (reg, unbalanced, method)", "ot/solvers.py"), ("OTResult", "ot/utils.py")],
  ["ot.solve", "ot.solve_sample", "ot.solve_gromov", "ot.utils.OTResult"], over=("inputs", "configurations"))

p("C27", "Batched solvers equal solving each item alone",
  "Batch solvers give for every problem of the batch the solution that solving that problem alone gives, independent of batch order, of the other problems in the batch and of padding; losses and distances computed for a batch equal the per-item documented formulas.",
  "all batches (sizes, heterogeneous scales), metrics, losses and solvers",
  "Tests compare one random batch.",
  ["ot/batch/_linear.py", "ot/batch/_quadratic.py", "ot/batch/_utils.py"],
  [("batched Bregman log projections", "ot/batch/_utils.py")],
  ["ot.batch.*"])

p("C28", "Every backend computes the same thing",
  "For each array backend (NumPy, PyTorch, JAX, TensorFlow) every backend primitive has the NumPy reference semantics, and solvers return the same values, in the caller's array type and precision, as with NumPy. Mixing backends is rejected.",
  "all backend operations, argument shapes/axes/dtypes, and all backend-generic solvers",
  "Tests call each primitive once with one shape; agreement across axes, dtypes and broadcasting is not sampled.",
  ["ot/backend.py"],
  [("Backend subclasses", "ot/backend.py")],
  ["ot.backend.get_backend(x).*", "public solvers called with torch/jax/tf arrays"], over=("inputs", "configurations"))

p("C29", "Automatic gradients are the true derivatives",
  "Differentiating any differentiable OT loss through an autodiff backend yields the derivative of that loss with respect to weights, costs, samples and regularisation (for weights: along mass-preserving directions), for every gradient mode offered.",
  "all differentiable losses at points where they are differentiable",
  "Tests check that gradients exist and have the right shape, rarely their value.",
  ["ot/lp/_network_simplex.py", "ot/backend.py", "ot/solvers.py", "ot/lp/solver_1d.py", "ot/gromov/_gw.py"],
  [("set_gradients custom autograd", "ot/backend.py"), ("envelope theorem gradients", "ot/solvers.py")],
  ["torch.autograd of ot.emd2, ot.sinkhorn2, ot.solve, ot.gromov_wasserstein2, sliced, 1D, Gaussian losses"])

p("C30", "Calls are pure: inputs intact, results reproducible, threads independent",
  "No public function modifies the arrays it is given (unless documented), repeated calls with the same arguments and seed give identical results irrespective of what ran before, the caller's global random state or print/warning settings are not silently changed, and calls made concurrently from several threads give the same results as sequential ones.",
  "all public functions, inputs, call histories and thread interleavings",
  "Tests never compare inputs before and after nor run concurrent callers.",
  ["ot"],
  [("no module-level mutable state", "ot/*"), ("copies before in-place updates", "ot/*")],
  ["byte digests of inputs before/after, results under reordered and concurrent histories"], over=("inputs", "histories", "schedules"))

p("C31", "Cost matrices, projections and helpers match their definitions",
  "Pairwise cost functions, kernels, simplex and sparse-simplex projections, histogram/label utilities, lazy tensors and proximal/projection helpers return exactly their mathematical definition: projections are the nearest feasible point, distance matrices match the metric definition with zero diagonals and non-negative entries, lazy evaluation equals dense evaluation on every slice, normalisations attain their target.",
  "all shapes, metrics, weights, axes, slices, dtypes and values (ties, zeros, large norms)",
  "Tests check random Gaussians against scipy for default arguments.",
  ["ot/utils.py", "ot/datasets.py"],
  [("dist dispatch", "ot/utils.py"), ("proj_simplex / projection_sparse_simplex", "ot/utils.py"), ("LazyTensor", "ot/utils.py")],
  ["ot.dist", "ot.utils.*", "ot.datasets.*"])

p("C32", "Weak, factored and low-rank OT return feasible minimising factors",
  "Weak OT returns a feasible plan minimising the barycentric cost; factored OT returns two exact plans through a common intermediate measure with alternating descent; low-rank Sinkhorn returns factors whose product has the prescribed marginals and whose reported costs are those of that product.",
  "all samples, weights, ranks, initialisations and regularisations",
  "Tests check marginals on one seed.",
  ["ot/weak.py", "ot/factored.py", "ot/lowrank.py"],
  [("conditional gradient", "ot/weak.py"), ("LR-Dykstra", "ot/lowrank.py")],
  ["ot.weak_optimal_transport", "ot.factored_optimal_transport", "ot.lowrank_sinkhorn", "ot.lowrank.compute_lr_sqeuclidean_matrix"], over=("inputs", "histories"))

p("C33", "BSP-OT returns genuine bijections with truthful costs",
  "The binary-space-partition matching solvers return a permutation of the target points, report the transport cost of exactly that permutation, never increase the cost by merging with an initial or additional plan, and are reproducible from their seed.",
  "all point clouds of equal size, metrics, numbers of plans, initial plans, seeds",
  "The test suite cannot even build the extension here; bijectivity must hold for every cloud (duplicates, collinear) and seed.",
  ["ot/bsp/bsp_ot.py", "ot/bsp/bsp_wrapper.cpp", "ot/bsp/bsp_wrap.pyx"],
  [("BSP merging of bijections", "ot/bsp/bsp_wrapper.cpp")],
  ["ot.bsp.bsp_ot.*"])

p("C34", "Graph-neural OT layers compute OT distances to their templates",
  "The template-based FGW and Wasserstein pooling layers output, for each graph of a batch, the documented distances to each learned template, independently of how graphs are batched or ordered, with template weights kept in the simplex and gradients that are derivatives of those distances.",
  "all graphs, batches, templates, weights",
  "Tests check output shape and that backward runs.",
  ["ot/gnn/_layers.py", "ot/gnn/_utils.py"],
  [("TFGW_template / wasserstein_template", "ot/gnn/_utils.py")],
  ["ot.gnn.TFGWPooling", "ot.gnn.TWPooling"])

p("C35", "Discriminant projections and robust subspaces satisfy their constraints",
  "Discriminant and robust-subspace dimension reduction return projections with orthonormal columns (or the documented generalised constraint), a projection function that is exactly that linear map, objective values consistent with the returned variables, and embeddings equivariant to translations of the data.",
  "all labelled data, dimensions, regularisations and starting points",
  "Tests check orthonormality on one dataset.",
  ["ot/dr.py", "ot/sgot.py"],
  [("Riemannian optimisation", "ot/dr.py")],
  ["ot.dr.fda", "ot.dr.wda", "ot.dr.projection_robust_wasserstein", "ot.dr.ewca", "ot.sgot.*"])
