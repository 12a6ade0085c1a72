import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

add("C01","Frank-Wolfe never leaves the constraint set",
 "Started from a feasible point, every point at which the Frank-Wolfe solver calls the linear minimization oracle or the callback, and the point it returns, is feasible up to rounding, for every built-in step-size rule, for both variants and for any valid oracle. Each new iterate is the previous iterate plus a step between 0 and the maximum step the oracle announced, along the direction the oracle returned; the decreasing rule takes exactly the step 2/(t+2) at iteration t, capped at the announced maximum.",
 ["inputs","histories","configurations"],
 "all smooth objectives, feasible starts, oracles (L1 ball, simplex, trace ball, explicit polytopes with their own maximum step), variants, step rules, Lipschitz estimates (including wrong ones) and iteration counts",
 "The tests only look at a gradient-mapping norm at the final point with thresholds of 0.2 to 0.4, on one random data set; no test looks at feasibility of any iterate.",
 ["copt/frank_wolfe.py","copt/constraint.py"],
 [("step size capped by max_step_size","copt/frank_wolfe.py: backtracking_step_size, step == 'DR'"),("x += step_size * update_direction","copt/frank_wolfe.py: minimize_frank_wolfe")],
 [("x","current iterate","minimize_frank_wolfe"),("max_step_size","cap announced by the oracle","minimize_frank_wolfe")],
 ["calls of the user's lmo(u, x, active_set)","callback","returned x"])
add("C02","The pairwise active set is a convex decomposition of the iterate",
 "In pairwise variants (deterministic and stochastic Frank-Wolfe), whenever the oracle is called and on return, the active set holds only vertices with positive weight, the weights sum to one, and the weighted vertices add up to the current iterate. A vertex whose weight is exhausted by a step leaves the active set, and a step larger than the weight of the vertex it moves away from is rejected with an error.",
 ["histories","inputs"],
 "every sequence of add, transfer and drop steps reachable by the solvers, and every sequence of direct active-set updates",
 "Tests never look at the active set; the histories that matter (a drop step, then steps that use the set again) are not asserted on.",
 ["copt/frank_wolfe.py","copt/randomized.py","copt/constraint.py"],
 [("update_active_set","copt/frank_wolfe.py"),("lmo_pairwise picks the away vertex and its weight","copt/constraint.py: L1Ball.lmo_pairwise")],
 [("active_set","vertex representation -> weight","minimize_frank_wolfe, minimize_sfw")],
 ["lmo calls (third argument)","result.active_set","update_active_set"])
add("C03","Frank-Wolfe makes progress, and its certificate is the true gap",
 "At every iteration the oracle is queried at minus the gradient of the objective at the current iterate, and the reported certificate is the Frank-Wolfe gap at the last iterate where the oracle was queried. With the backtracking rule the objective satisfies the sufficient-decrease condition and hence never increases (beyond the documented float32-epsilon slack), and with the Demyanov-Rubinov rule the step is min(gap / (L ||d||^2), maximum step). The run stops before its iteration budget only when the gap is at most tol or the callback asked for it, and reports success exactly when the gap is at most tol.",
 ["inputs","histories","configurations"],
 "all convex and non-convex smooth objectives, oracles, variants, tolerances (including 0) and starting Lipschitz estimates",
 "Tests check only a loose gradient-mapping bound at the end and never the certificate, monotonicity, or why the run stopped.",
 ["copt/frank_wolfe.py"],
 [("certificate = <d, -grad>","minimize_frank_wolfe"),("sufficient decrease loop","backtracking_step_size"),("certificate <= tol","minimize_frank_wolfe")],
 [("certificate","FW gap","minimize_frank_wolfe"),("lipschitz_t","running Lipschitz estimate","minimize_frank_wolfe")],
 ["lmo calls","objective calls","result.certificate, result.nit, result.success"])
add("C04","Linear minimization oracles return the optimal feasible vertex",
 "For every direction u and point x, the oracles of the L1 ball, the simplex and the trace ball return d = s - x where s lies in the set and maximizes <u, s> over it, with maximum step 1. The pairwise oracle of the L1 ball returns d = s - v with s as before, v the active vertex least correlated with u, a representation of s and of v that identifies them, and as maximum step the weight of v.",
 ["inputs"],
 "all directions (ties, zeros, all-negative, tiny and huge entries), points, radii, matrix shapes and active sets",
 "No test calls an oracle directly; solvers with a wrong oracle can still pass the loose final-point thresholds.",
 ["copt/constraint.py"],
 [("L1Ball.lmo, lmo_pairwise","copt/constraint.py"),("SimplexConstraint.lmo","copt/constraint.py"),("TraceBall.lmo","copt/constraint.py")],
 [],["return value of lmo / lmo_pairwise"])
add("C05","Constraint-set projections return the nearest feasible point",
 "For every point, the projection onto the L1, L2, L-infinity, simplex or trace-norm set is feasible, is the Euclidean-nearest feasible point, leaves feasible points unchanged, and the set's own indicator (where there is one) accepts it.",
 ["inputs"],
 "all vectors (ties, zeros, signs, already feasible, exactly on the boundary), radii, dimensions, matrix shapes, float32 and float64",
 "Only the trace ball has a test, at 10 random points; ties, boundary points and indicator agreement are not sampled.",
 ["copt/constraint.py"],
 [("euclidean_proj_simplex, euclidean_proj_l1ball","copt/constraint.py"),("prox of L2Ball, LinfBall, TraceBall","copt/constraint.py"),("__call__ of L1Ball, TraceBall","copt/constraint.py")],
 [],["return value of prox and __call__"])
add("C06","Penalty proximal operators are exact minimizers",
 "For every input x and step s > 0, the proximal operator of the L1 norm, the group lasso and the trace norm returns the unique minimizer of penalty(z) + ||z - x||^2 / (2 s), where penalty is the value the object itself reports, with coordinates that belong to no group left unchanged. The reported value is alpha times the (group, trace) norm.",
 ["inputs","configurations"],
 "all inputs (zeros, ties at the threshold, signs, scales), steps, weights alpha (including 0) and group structures with gaps, single-element groups and uneven sizes, float32 and float64",
 "One inequality at 10 random points with step 1 and alpha 1; it is a necessary condition at sampled points, not optimality for all inputs.",
 ["copt/penalty.py"],
 [("L1Norm.prox, GroupL1.prox, TraceNorm.prox","copt/penalty.py"),("__call__","copt/penalty.py")],
 [],["return values of prox and __call__"])
add("C07","Total-variation operators solve the total-variation problem",
 "For every signal and step, the 1-D total-variation prox (and the fused-lasso penalty, and its column-wise and row-wise forms on a matrix) returns the exact minimizer of step * TV(z) + ||z - w||^2 / 2, and the 2-D prox returns the minimizer to the accuracy its tolerance asks for when it does not warn. The penalties report alpha * TV, and the 2-D difference operator L satisfies ||L x||_1 = TV(x) for every x and every grid shape.",
 ["inputs"],
 "all signals (plateaus, ties, monotone runs, spikes, length 1 and up), steps from 0 up to the fully fused regime, grid shapes including single rows and columns, float32 and float64",
 "1000 random gaussian signals of length 10 with a single step and a one-sided inequality; the taut-string code has many branches that only ties, plateaus or long runs reach.",
 ["copt/tv_prox.py","copt/penalty.py"],
 [("_prox_tv1d taut string","copt/tv_prox.py"),("c_prox_tv2d Dykstra","copt/tv_prox.py"),("tv2d_linear_operator","copt/tv_prox.py")],
 [("c, c_low, c_up, s_low, s_up","segments of the upper and lower hull of the taut string","_prox_tv1d")],
 ["return values"])
add("C08","Block proximal operators agree with the full proximal operator",
 "The block form of each separable penalty (L1, group lasso, and the two halves of the fused lasso) comes with blocks that partition the features into consecutive runs; applied to a sample it changes only the features of the blocks listed for that sample, and sets each such block to the proximal operator of the penalty restricted to that block with step multiplied by the block's weight. The two fused-lasso halves together penalize every pair of neighbours exactly once.",
 ["inputs","configurations"],
 "all numbers of features (odd, even, 1), group structures with gaps before, between and after groups, supports, weights and steps",
 "Tests compare two hand-written block matrices and otherwise only exercise the block operators through solvers on one random data set.",
 ["copt/penalty.py"],
 [("L1Norm.prox_factory, GroupL1.prox_factory","copt/penalty.py"),("FusedLasso.prox_1_factory, prox_2_factory","copt/penalty.py")],
 [("B_indptr, B_data","feature blocks and the flag for unpenalized ones","prox_factory")],
 ["block operator calls","returned block matrix"])
add("C09","Loss values and gradients are those of the documented functions",
 "For every data matrix in every supported storage format, target, regularization and point, the logistic, square and Huber losses return the documented value, the gradient of that value, the same value when only the value is asked for or when the loss object is called, and per-sample derivatives consistent with them. This holds for arbitrarily large margins without overflow or loss of sign.",
 ["inputs","configurations"],
 "all dense and sparse data (empty rows and columns, explicit zeros), targets in the valid range, margins from -1000 to 1000, alpha >= 0, Huber thresholds, points",
 "check_grad at one or twenty random points of moderate margin, alpha 0 and default delta; it compares the code with itself, so a wrong value with its matching gradient passes.",
 ["copt/loss.py","copt/utils.py"],
 [("LogLoss.f_grad, logsig, expit_b, partial_deriv","copt/loss.py"),("SquareLoss, HuberLoss f_grad","copt/loss.py")],
 [],["return values of the loss, f_grad, partial_deriv"])
add("C10","Curvature information of the losses is valid",
 "The logistic loss's Hessian-vector product is the derivative of its gradient, for every regularization. The reported Lipschitz constant bounds the variation of the gradient between any two points, and the reported per-sample Lipschitz constant bounds that of every regularized single-sample gradient; for the squared and the logistic loss neither is larger than necessary.",
 ["inputs"],
 "all data, regularizations (including alpha > 0), points and directions",
 "The Hessian test uses alpha = 0 and one column of the Hessian at one point; no test checks that the Lipschitz constants are upper bounds.",
 ["copt/loss.py"],
 [("LogLoss.hessian_mv","copt/loss.py"),("lipschitz, max_lipschitz","copt/loss.py"),("get_max_lipschitz","copt/utils.py")],
 [],["hessian_mv(x)(s)","lipschitz, max_lipschitz"])
add("C11","Proximal gradient descends, follows its recurrence and certifies honestly",
 "Every iterate of the proximal-gradient solver is the proximal operator applied to a gradient step, from the previous iterate or, when accelerated, from the Nesterov/FISTA extrapolation of the last two iterates. With backtracking the accepted step satisfies the quadratic upper bound, so without acceleration the composite objective never increases. Success is reported exactly when the reported certificate, the gradient-mapping norm of the last step (taken with the step as the line search leaves it, up to 10% larger), is below tol, and then the returned point is stationary up to a small multiple of tol (above the residuals, about the square root of the rounding error of the objective, that a line search cannot resolve). On request the certificates of all iterations are returned in order.",
 ["inputs","histories","configurations"],
 "all smooth convex objectives and proximable penalties, starts, step rules (backtracking with any factor and limit, user callables), tolerances and budgets, accelerated or not",
 "Tests check the final gradient mapping on one data set; no test checks descent, the acceleration sequence, or that success implies stationarity on a problem where the iterates oscillate.",
 ["copt/proximal_gradient.py","copt/utils.py"],
 [("backtracking loops","minimize_proximal_gradient"),("tk, yk update","minimize_proximal_gradient"),("certificate < tol","minimize_proximal_gradient")],
 [("x, yk, tk","iterate, extrapolation point, Nesterov scalar","minimize_proximal_gradient"),("step_size","current step","minimize_proximal_gradient")],
 ["prox calls","objective calls","callback x","result"])
add("C12","Three-operator splitting follows its recurrence to a minimizer",
 "Each iteration of the three-operator solver is a proximal step on the first penalty from z - s(u + grad f(z)), a proximal step on the second from x + s u, and the dual update u + (x - z)/s, where with line search the accepted step satisfies the quadratic upper bound and never grows unless a Lipschitz bound on the second penalty was given, and then by at most 2% per iteration. Success is reported exactly when the certificate is below tol after at least two iterations, and the returned point then minimizes f + g + h to an accuracy proportional to tol.",
 ["inputs","histories","configurations"],
 "all smooth convex objectives, pairs of proximable penalties, starts, initial steps, line search on or off, backtracking factors",
 "Tests assert the solver's own certificate, which a wrong recurrence can also drive to zero, and the true optimum is compared on two problems only.",
 ["copt/splitting.py"],
 [("x, z, u updates","minimize_three_split"),("line search","minimize_three_split")],
 [("z, u","second-prox point and dual variable","minimize_three_split")],
 ["prox_1 and prox_2 calls","callback","result"])
add("C13","Primal-dual splitting converges to a minimizer for any linear operator",
 "Given enough iterations the primal-dual solver converges to a minimizer of f(x) + g(x) + h(Lx) for every linear operator L (dense, sparse, LinearOperator, non-square, rank-deficient, badly scaled), with line search from any starting step or without it for steps within the theoretical bound. Whenever it reports success the returned point minimizes the objective to an accuracy proportional to tol, and it uses prox_2 only through Moreau's identity for the conjugate of h.",
 ["inputs","histories","configurations"],
 "all strongly convex smooth f, proximable g and h, operators L, initial steps, budgets",
 "Tests use L = identity or the difference operator on one data set, and otherwise compare the solver's own certificate.",
 ["copt/splitting.py"],
 [("line search on tau","minimize_primal_dual"),("prox_2_conj","minimize_primal_dual")],
 [("y, tau, sigma, theta","dual variable and step sizes","minimize_primal_dual")],
 ["prox_1, prox_2 calls","result"])
add("C14","SAGA and SVRG take unbiased sparse steps and reach the minimizer",
 "At each inner step for sample i, SAGA (SVRG) moves only the blocks that meet the sample's features, along the difference between the sample's current and remembered (snapshot) gradient plus the block-reweighted average remembered (full snapshot) gradient and l2 term, then applies the block prox; the remembered average always equals the mean of the remembered gradients. Averaged over the samples this direction is the gradient of the regularized objective, and with a suitable step the solvers converge to the minimizer of the composite objective over the blocks that samples use (blocks no sample uses keep their start values).",
 ["schedules","inputs","histories"],
 "all sample orders, sparsity patterns (empty rows included), targets, block structures, steps, starting points, l2 weights",
 "Tests check the final point on one random sparse matrix; a step that is biased or forgets a memory term on particular sparsity patterns or orders is invisible there.",
 ["copt/randomized.py"],
 [("_saga_epoch","minimize_saga"),("_svrg_epoch, full_grad","minimize_svrg"),("_support_matrix and weights d","copt/randomized.py")],
 [("memory_gradient, gradient_average","remembered scalar derivatives and their mean gradient","minimize_saga"),("x_snapshot, gradient_average","snapshot and its full gradient","minimize_svrg")],
 ["block prox calls (x, sample, supports, weights, step)","callback","result"])
add("C15","Variance-reduced three-operator splitting follows its sparse recurrence",
 "At each inner step for sample i, the variance-reduced three-operator solver updates, on the blocks meeting the sample, the two prox points, their dual-like variables and the weighted average point as documented in its recurrence, and leaves every other coordinate alone; its fixed points are minimizers of the regularized sum of loss and both penalties. It works for any two block structures and any sparsity pattern, including features no sample uses.",
 ["schedules","inputs","histories"],
 "all sample orders, sparsity patterns, pairs of block structures (identity, groups, fused-lasso halves), steps, l2 weights",
 "Tests check the final point on one random matrix with groups that happen to be covered by the data.",
 ["copt/randomized.py"],
 [("epoch_iteration_template","_factory_sparse_vrtos"),("_support_matrix and weights d1, d2","copt/randomized.py")],
 [("Y, z, x1, x2","splitting variables","epoch_iteration_template"),("memory_gradient, gradient_average","gradient memory","epoch_iteration_template")],
 ["block prox calls","callback","result"])
add("C16","Stochastic Frank-Wolfe keeps a faithful gradient estimate and stays feasible",
 "At every step of every stochastic Frank-Wolfe variant (SAG, SAGA, MHK, LF) the oracle is queried at minus the gradient estimate that variant defines from the samples drawn so far (the aggregate always equals the sum over samples of their dual value times their data row, and the SAGA estimate is unbiased over the draw of the batch), and the iterate moves along the returned direction by the step of the chosen rule. From a feasible start every iterate is feasible for every variant, step rule (sublinear, Demyanov-Rubinov, user callable) and batch size, and the iterates stay finite.",
 ["schedules","inputs","configurations","histories"],
 "all variants, batch sizes (dividing the number of samples or not), step rules, sparse and dense data, oracles, sample draws",
 "Tests only check that the calls run; no assertion is made on any result.",
 ["copt/randomized.py"],
 [("dual_var, grad_agg, agg updates","minimize_sfw"),("step_size_sfw, step_size_DR","copt/randomized.py")],
 [("dual_var, grad_agg, agg","dual values, aggregated gradient, aggregated predictions","minimize_sfw")],
 ["derivative calls","lmo calls","callback","result"])
add("C17","Every epoch samples the data correctly",
 "Each epoch of SAGA, SVRG and VRTOS visits every sample exactly once, in an order drawn afresh from numpy's global generator. Each epoch of stochastic Frank-Wolfe with batch size b > 1 takes floor(n/b) batches of b distinct valid samples, and with batch size 1 takes n single samples; runs repeat exactly when the global seed is repeated.",
 ["schedules","configurations"],
 "all numbers of samples, batch sizes, epochs and seeds",
 "No test looks at which samples are visited; skipping or repeating a sample still converges on the test problem.",
 ["copt/randomized.py","copt/utils.py"],
 [("np.random.shuffle / permutation","minimize_saga, minimize_svrg, minimize_vrtos"),("sample_batches","copt/utils.py")],
 [("idx","sample order of the epoch","all stochastic solvers")],
 ["derivative calls","block prox calls","sample_batches"])
add("C18","Callbacks, budgets and stopping follow one protocol",
 "Every solver calls the callback with the current iterate; for the deterministic solvers a callback that returns False ends the run at once with the point the callback saw as result and without success, and any other return value changes nothing. No solver performs more than max_iter iterations (epochs for the stochastic ones), a solver that uses its tolerance stops at the first iteration that meets it, success is reported exactly then, and attaching a passive callback does not change the result.",
 ["histories","configurations"],
 "all solvers and variants, callback return values and the call at which they are returned, budgets from 1 up, tolerances (0, reachable, infinite)",
 "Tests use one callback that returns False at the first call and check nit < 2.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py"],
 [("callback(locals()) is False","all deterministic solvers"),("loop guards and success flags","all solvers")],
 [("nit, success","reported iterations and status","OptimizeResult")],
 ["callback calls","result"])
add("C19","Solvers and operators do not modify or depend on their inputs' identity",
 "No solver, loss, penalty, constraint or utility modifies the arrays the caller passed (start point, data, targets, directions) or that the caller's own functions returned, and none returns or keeps a view through which later work changes them. Start points given as integer arrays, and as lists where array-likes are accepted, give the same result as the equal float array, and calling twice with the same inputs and seed gives identical results.",
 ["inputs","histories","configurations"],
 "all public solvers, losses, penalties, constraints and utilities, dtypes and memory layouts of inputs, repeated calls on the same objects",
 "Every test passes a fresh float array and never looks at it again.",
 ["copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py","copt/constraint.py","copt/penalty.py","copt/tv_prox.py","copt/loss.py"],
 [("copies of x0 at entry","all solvers"),("copies in prox operators","copt/penalty.py, copt/tv_prox.py")],
 [],["arguments before and after each call"])
add("C20","The Trace callback records what happened",
 "Used as a callback, a trace with frequency q records exactly the calls number 0, q, 2q, ...: the objective at the iterate when an objective was given and otherwise a snapshot of the iterate that later iterations cannot change, together with elapsed times that never decrease and the step size of that call. It never stops a solver.",
 ["histories","configurations"],
 "all frequencies, numbers of calls, with and without objective, on every solver",
 "Tests attach traces but never look at what was recorded.",
 ["copt/utils.py"],
 [("Trace.__call__","copt/utils.py")],
 [("_counter","number of calls so far","Trace"),("trace_x, trace_fx, trace_time, trace_step_size","records","Trace")],
 ["Trace attributes"])
add("C21","Results do not depend on how the data matrix is stored",
 "The sparse row kernels compute exactly the products of the selected rows with a vector, for any valid CSR matrix and any selection of rows (repeated, unordered, empty). For the same data, targets and seed, the losses and the stochastic solvers give the same results up to rounding whatever the storage of the matrix (dense, CSR, CSC, COO, LIL, either index width, unsorted indices), and sums of mixed sparse and dense vectors keep the vector's shape.",
 ["inputs","configurations"],
 "all matrices, storage formats, index orders, row selections",
 "Two tests of the kernels on one random CSR matrix with sorted indices; solver tests on sparse formats assert nothing.",
 ["copt/utils.py","copt/randomized.py","copt/loss.py"],
 [("fast_csr_mv, fast_csr_vm","copt/utils.py"),("safe_sparse_add","copt/utils.py"),("conversion to CSR","all stochastic solvers")],
 [],["return values"])
add("C22","The data-set cache survives interruption and serves the right split",
 "After any interruption of a download or extraction, a later load either completes the data set or returns it, and never returns a partial or truncated one or fails for good. Train, test and full loads return the stored arrays unchanged, full being train followed by test, an unknown split is rejected, a data set already in the cache is not downloaded again, and a download whose check sum is wrong is discarded and repeated. The sample image has exactly the requested numbers of rows and columns and at its native size is the stored one.",
 ["crash_points","histories"],
 "all points of the download and extraction at which the process can stop, all sequences of loads and interruptions, all splits",
 "No test touches the data-set cache.",
 ["copt/datasets.py"],
 [("_load_dataset","copt/datasets.py")],
 [("files in the data-set folder","cache state","_load_dataset")],
 ["calls of the loaders with a local stand-in for the download"])
add("C23","Arguments are interpreted as documented and invalid ones are rejected",
 "A gradient given as a callable, jointly with the objective, or estimated by finite differences leads to the same run up to the accuracy of the estimate, and extra arguments reach the objective, its gradient and the proximal operators. Step rules, variants and other options outside the documented sets, missing Lipschitz constants, non-positive line-search limits, negative tolerances of Frank-Wolfe, non-positive radii of projections, targets outside [0, 1] for the logistic loss, and overlapping, unordered or non-contiguous groups raise an error instead of producing a result.",
 ["inputs","configurations"],
 "all solvers and constructors, option values, gradient specifications and extra arguments",
 "One test checks one rejected combination; the finite-difference specification is never exercised.",
 ["copt/utils.py","copt/frank_wolfe.py","copt/proximal_gradient.py","copt/splitting.py","copt/randomized.py","copt/penalty.py","copt/loss.py"],
 [("build_func_grad","copt/utils.py"),("argument checks at entry","all solvers and constructors")],
 [],["raised errors","result"])
with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
