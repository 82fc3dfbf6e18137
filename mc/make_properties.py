import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe or [],"hook_needed":None}})
S='active_subspaces/'
p("C01","Active subspace is the eigendecomposition of the averaged outer product",
 "For every array of gradient samples and every array of nonnegative weights, the estimated eigenvalues are nonnegative and in nonincreasing order, the eigenvectors form an orthogonal matrix whose columns have a nonnegative first component, and together they reproduce the weighted sum of outer products of the gradients. When no weights are given, every sample counts 1/M. This includes repeated and zero eigenvalues, zero gradients and fewer samples than inputs, and does not depend on the order of the samples.",
 ["inputs"],"all gradient sample matrices (any shape M-by-m, any values) and nonnegative weights",
 "Tests use one random 10-by-3 matrix and only compare the first two eigenvalues; degenerate spectra, weights and the eigenvectors themselves are never looked at.",
 [S+"subspaces.py"],[("active_subspace",S+"subspaces.py"),("sorted_eigh",S+"subspaces.py"),("Subspaces.compute",S+"subspaces.py")],
 observe=["active_subspaces.subspaces.active_subspace","Subspaces.eigenvals","Subspaces.eigenvecs"])
p("C02","Regression subspaces come from the weighted least-squares model",
 "The 'OLS' subspace is the eigendecomposition of the outer product of the slope of the weighted least-squares linear fit, and the 'QPHD' subspace that of the average outer product of the gradient of the weighted least-squares quadratic fit, where the average uses second moment 1/3 when all inputs lie in [-1,1] and 1 otherwise. Giving a sample an integer weight k is the same as listing it k times, and data from a linear function of one direction yields exactly that direction.",
 ["inputs"],"all input/output data sets with enough samples for the model, and positive weights",
 "Tests run each estimator once on random noise and compare two eigenvalues; the fitted model, the inputs' range and nonuniform weights are not exercised.",
 [S+"subspaces.py",S+"utils/response_surfaces.py"],[("ols_subspace",S+"subspaces.py"),("qphd_subspace",S+"subspaces.py"),("PolynomialApproximation.train",S+"utils/response_surfaces.py")],
 observe=["active_subspaces.subspaces.ols_subspace","active_subspaces.subspaces.qphd_subspace","Subspaces.compute(sstype=...)"])
p("C03","Local linear gradients are fits to the nearest other samples",
 "Whatever sample points the random choice picks as centers, every gradient returned by the local linear estimator is the slope of the least-squares linear fit to the p samples nearest to one of the given samples, not counting samples at the center itself, and every sample can become a center; so data from a linear function gives its exact gradient in every row whose neighbors determine a linear function. The number of rows is min(ceil(10 m log m), M-1), p defaults to min(floor(1.7 m), M), and the 'OPG' subspace is the equally weighted active subspace of such gradients.",
 ["inputs","schedules"],"all data sets with M > m samples, all admissible p, and every sequence of answers of the random generator that picks the centers",
 "One seeded data set of 200 points from a linear function is tested, for which any neighborhood gives the right answer; a wrong neighbor set is invisible there.",
 [S+"gradients.py",S+"subspaces.py"],[("local_linear_gradients",S+"gradients.py"),("opg_subspace",S+"subspaces.py")],
 observe=["active_subspaces.gradients.local_linear_gradients","Subspaces.compute(sstype='OPG')"])
p("C04","Bootstrap ranges summarize exactly the resampled estimates",
 "For every outcome of the resampling, the bootstrap draws M of the M samples with replacement, keeping inputs, outputs, gradients and weights of a sample together, re-estimates the subspace with the same method, and reports per eigenvalue the smallest and largest replicate value, and per dimension the smallest, mean and largest distance between the original active subspace and the replicate's, all in [0,1]. Every resample can occur, and the eigenpairs reported are those of the original data, unaffected by the bootstrap.",
 ["inputs","schedules"],"all data sets, all four subspace types, all numbers of replicates, all answers of the random generator",
 "Tests run the bootstrap with one seed and discard the result.",
 [S+"subspaces.py"],[("_bootstrap_ranges",S+"subspaces.py"),("_bootstrap_replicate",S+"subspaces.py"),("Subspaces.compute",S+"subspaces.py")],
 observe=["Subspaces.e_br","Subspaces.sub_br","Subspaces.eigenvals"])
p("C05","Subspaces objects stay consistent through every history of calls",
 "After any sequence of compute and partition calls on a Subspaces object, including calls that fail, the active and inactive bases are together exactly the columns of the stored eigenvector matrix, split at the last chosen dimension, and all stored results come from the last successful compute. A call that raises changes nothing. The outcome of a call does not depend on what was computed with the object before.",
 ["histories","fault_sequences"],"all finite sequences of successful and failing compute and partition calls, with all subspace and partition types, on one or several objects",
 "Tests call compute repeatedly on one object but check nothing afterwards, and never let a call fail in between.",
 [S+"subspaces.py"],[("Subspaces.compute",S+"subspaces.py"),("Subspaces.partition",S+"subspaces.py")],
 state=[("eigenvals, eigenvecs","eigenpairs of the last computation",S+"subspaces.py"),("W1, W2","active and inactive basis",S+"subspaces.py"),("e_br, sub_br","bootstrap ranges of the same computation",S+"subspaces.py")],
 observe=["Subspaces attributes after each call"])
p("C06","The chosen dimension optimizes the documented criterion",
 "The dimension of the active subspace chosen by compute is a dimension between 1 and m (m-1 for 'EVG' and 'RS') that attains the largest gap between consecutive eigenvalues ('EVG'), the smallest estimate of the response surface error sqrt(sum of the first n eigenvalues) times the mean subspace error plus sqrt(sum of the others) ('RS'), or the smallest value of the criterion combining subspace variability and normalized eigenvalues ('LI'). The criterion values reported by the partition functions are exactly these quantities. 'RS' and 'LI' without bootstrap are refused.",
 ["inputs","configurations"],"all nonincreasing nonnegative spectra, all subspace errors in [0,1], all partition types",
 "The tests call each partition function once on random data and ignore the dimension it returns.",
 [S+"subspaces.py"],[("eig_partition",S+"subspaces.py"),("errbnd_partition",S+"subspaces.py"),("ladle_partition",S+"subspaces.py")],
 observe=["return values of the partition functions","Subspaces.W1 shape"])
p("C07","Bounded domains are exactly the image of the hypercube",
 "For inputs in [-1,1]^m and an active subspace in general position, the computed domain of the active variables is exactly the image of the hypercube under the active basis: its vertex list has every vertex exactly once (two endpoints, for one active variable), each paired with a corner of the hypercube that maps to it, and the inequality constraints are nonnegative exactly at the points of the domain. This holds whatever directions the random search draws, and after the subspaces are computed again or partitioned otherwise and the boundary recomputed, the domain is the same as a newly built one.",
 ["inputs","schedules","histories"],"all bases in general position, every sequence of directions the random vertex search can draw, every history of partition and compute_boundary calls",
 "Tests construct one or two domains without looking at vertices or constraints; zero components, rare vertices and changes of dimension are not reached.",
 [S+"domains.py"],[("zonotope_vertices",S+"domains.py"),("interval_endpoints",S+"domains.py"),("nzv",S+"domains.py"),("BoundedActiveVariableDomain.compute_boundary",S+"domains.py")],
 state=[("vertY, vertX","vertices of the domain and the hypercube corners mapped to them",S+"domains.py"),("constraints, convhull","inequalities of the domain",S+"domains.py")],
 observe=["BoundedActiveVariableDomain attributes","zonotope_vertices","interval_endpoints"])
p("C08","Forward and inverse maps are inverse to each other and keep order",
 "Mapping points to active and inactive variables and combining the two with the bases gives back the points. The inverse map returns, for each given active point in order, N consecutive input points that map forward to exactly that active point, with an index array that says so; for bounded inputs all returned points lie in the hypercube. This holds for every dimension of the active subspace, every N and every random answer, and also after the partition has been changed.",
 ["inputs","schedules","histories"],"all points, numbers of samples N, dimensions n <= m, bounded and unbounded maps, random answers",
 "Tests check one seed with one active variable, where several possible mix-ups of rows and columns coincide.",
 [S+"domains.py"],[("ActiveVariableMap.forward",S+"domains.py"),("ActiveVariableMap.inverse",S+"domains.py"),("_rotate_x",S+"domains.py"),("regularize_z",S+"domains.py")],
 observe=["forward()","inverse()"])
p("C09","Sampled inactive variables always keep the inputs in the hypercube",
 "For every active point in the bounded domain, interior or on its boundary, each sampler of inactive variables (rejection, hit-and-run, random walk, and the combination used by default) returns exactly N samples for which the corresponding input points lie in [-1,1]^m, whatever the random generator answers; the rejection sampler may instead report that it has too few, and then the combination still returns N samples. Rejection keeps every proposal that is inside, in order.",
 ["inputs","schedules"],"all active points of the domain, all N, all sequences of random answers including the extremes of each draw",
 "Tests call each sampler once with one seed and look at nothing; bad random answers are rare and need enumeration.",
 [S+"domains.py",S+"utils/qp_solver.py"],[("sample_z",S+"domains.py"),("rejection_sampling_z",S+"domains.py"),("hit_and_run_z",S+"domains.py"),("random_walk_z",S+"domains.py")],
 observe=["return values of the samplers"])
p("C10","Normalizers are exact inverse affine maps onto the standard domain",
 "The bounded normalizer maps lower bounds to -1, upper bounds to 1 and everything else affinely in between, per input; the unbounded normalizer maps a Gaussian with the given mean and covariance to a standard normal, that is, unnormalized standard points have exactly the given mean and covariance. In both, unnormalize undoes normalize and vice versa, for each point independently of the others.",
 ["inputs"],"all bounds lb < ub, all means and positive definite covariances (correlated ones included), all points",
 "Tests use one set of bounds and a diagonal covariance only, for which a transposed factor is invisible.",
 [S+"utils/misc.py"],[("BoundedNormalizer",S+"utils/misc.py"),("UnboundedNormalizer",S+"utils/misc.py")],observe=["normalize","unnormalize"])
p("C11","Gauss rules integrate all polynomials of degree 2N-1 exactly",
 "For every number of points, the Gauss-Hermite and Gauss-Legendre rules have positive weights that sum to one, increasing nodes that are symmetric about zero (inside (-1,1) for Legendre), and integrate every polynomial of degree up to 2N-1 exactly against the standard normal and the uniform density on [-1,1]. Tensor product rules have one point for each combination of one-dimensional nodes, first dimension slowest, with the product weight, for every list of point counts. The recurrence coefficients are those of the orthogonal polynomials for the given interval and Jacobi parameters, and the Jacobi matrix is the symmetric tridiagonal matrix of them.",
 ["inputs","configurations"],"all point counts N >= 1, all lists of point counts, all intervals and Jacobi parameters",
 "The tests only call the rules without looking at nodes or weights; the Legendre rules and Jacobi coefficients are never called.",
 [S+"utils/quadrature.py"],[("g1d",S+"utils/quadrature.py"),("gauss_hermite",S+"utils/quadrature.py"),("gauss_legendre",S+"utils/quadrature.py"),("r_jacobi, r_hermite, jacobi_matrix",S+"utils/quadrature.py")],
 observe=["gauss_hermite","gauss_legendre","gh1d","gl1d","r_jacobi","r_hermite","jacobi_matrix"])
p("C12","Integration rules on active variables are normalized and consistent",
 "For every map and every random answer, the quadrature rules on the active variables and on the inputs have nonnegative weights that sum to one, nodes inside the domain, and input nodes that map to their active node; on bounded domains a node's weight is the fraction of the drawn inputs that fall in its cell, on unbounded domains the rule is the tensor Gauss-Hermite rule with floor(N^(1/n)) points per dimension. The integral of a function is the weighted sum of the averages over each node's samples, so constants are integrated exactly, with a 95% interval that is centered at the estimate with half-width 1.96 times the Monte Carlo standard error, and the simulation is run exactly once per input node.",
 ["inputs","schedules"],"all maps (bounded and unbounded, every n), N, NMC, integrands and random answers",
 "Tests call integrate with one seed and ignore the value.",
 [S+"integrals.py",S+"utils/misc.py"],[("integrate",S+"integrals.py"),("av_integrate",S+"integrals.py"),("quadrature_rule",S+"integrals.py"),("interval_quadrature_rule",S+"integrals.py"),("zonotope_quadrature_rule",S+"integrals.py")],
 observe=["integrate","av_integrate","quadrature_rule","av_quadrature_rule"])
p("C13","Simulations run exactly once per point, in order, results in place",
 "Running a simulation or gradient simulation over an M-by-m array calls the user's function exactly M times, in row order, each time with that row as a 1-by-m array, and puts each result in its row; a result of another size than one number (one number per input, for gradients) raises instead of being stored. Finite difference gradients evaluate exactly the points and the points perturbed by h in each single input, and entry (i,j) is the forward difference in input j at point i, for any number of points, inputs and step size.",
 ["inputs","configurations"],"all input arrays, functions and step sizes; functions of any return shape the runners accept",
 "Tests use symmetric functions or one linear function with M=10, m=2 and a fixed step size; number and order of calls are not observed.",
 [S+"utils/simrunners.py",S+"gradients.py"],[("SimulationRunner.run",S+"utils/simrunners.py"),("SimulationGradientRunner.run",S+"utils/simrunners.py"),("finite_difference_gradients",S+"gradients.py")],
 observe=["calls received by the user's function","returned arrays"])
p("C14","Training through an interface fits the conditional averages",
 "Training a response surface through a simulation interface uses, for each design point of the active variables, the average (and variance) of the simulation over the NMC sampled inputs that map to this design point, and on bounded domains additionally the simulation at every corner that maps to a vertex of the domain, each simulation run exactly once. Conditional averages and variances are those of the outputs with equal index, in index order, however the indices are arranged.",
 ["inputs","schedules"],"all maps, N, NMC, functions and random answers; all index arrays covering 0..K",
 "Tests only train and predict without checks; the averaging has one test with four values in sorted order.",
 [S+"response_surfaces.py",S+"utils/misc.py"],[("ActiveSubspaceResponseSurface.train_with_interface",S+"response_surfaces.py"),("av_design",S+"response_surfaces.py"),("conditional_expectations",S+"utils/misc.py")],
 observe=["training data of the response surface","calls received by the user's function","av_design","conditional_expectations"])
p("C15","Polynomial surfaces are the least-squares fit and reproduce polynomials",
 "For every number of inputs and every degree N of at least 1, the polynomial approximation has each monomial of total degree up to N exactly once, is the (weighted) least-squares fit of the data, and therefore reproduces every polynomial of degree at most N exactly. Its predicted gradient is the derivative of its prediction, its reported linear and quadratic coefficients are the gradient and Hessian of the quadratic part at zero, and R-squared is one minus the ratio of residual to total variance. Predictions do not depend on which points are predicted together, and training again leaves nothing of earlier training behind, while what was returned before keeps its values.",
 ["inputs","histories"],"all training data sufficient for the degree, all degrees and dimensions, prediction points, orders of train and predict calls",
 "Tests fit three fixed polynomials in up to three inputs; gradients, mixed second derivatives in higher dimensions, weights and retraining are not covered.",
 [S+"utils/response_surfaces.py"],[("PolynomialApproximation",S+"utils/response_surfaces.py"),("polynomial_bases, grad_polynomial_bases, index_set",S+"utils/response_surfaces.py")],
 observe=["predict","g","H","Rsqr","poly_weights","index_set","polynomial_bases"])
p("C16","Radial basis surfaces reproduce polynomials and fit noise-free data",
 "For every training set, the radial basis approximation reproduces polynomials up to its degree exactly, its residual at the training points is the radial coefficient times the noise variance used there (at least 1e-6), and its predicted gradient is the derivative of its prediction. Predictions are the sum of the anisotropic squared exponential and the polynomial parts with the stored coefficients, do not depend on which points are predicted together, and noise variances and eigenvalues of any nonnegative (positive) size are accepted.",
 ["inputs","configurations"],"all training sets sufficient for the degree, noise variances, eigenvalues, degrees, prediction points",
 "The tests that train radial basis surfaces did not run at all with current numpy; they compare a few smooth functions at loose tolerances.",
 [S+"utils/response_surfaces.py"],[("RadialBasisApproximation",S+"utils/response_surfaces.py"),("exponential_squared, grad_exponential_squared",S+"utils/response_surfaces.py")],
 observe=["predict","radial_weights","poly_weights","ell","K","exponential_squared","grad_exponential_squared"])
p("C17","Full-space surfaces depend on the active variables only, with exact gradient",
 "A response surface on the active variables predicts at an input point exactly what the underlying surface predicts at its active variables, so moving an input along inactive directions never changes the prediction, and the gradient with respect to the inputs is the active gradient mapped through the active basis and equals the derivative of the prediction. Training with data is training the underlying surface on the active variables of the inputs (with the eigenvalues as length scales for radial bases), and all access paths (call, predict, gradient, predict_av, gradient_av) agree.",
 ["inputs","configurations","histories"],"all subspaces, partitions, underlying surfaces, training data and points",
 "Tests only train and predict without comparing anything.",
 [S+"response_surfaces.py"],[("ActiveSubspaceResponseSurface",S+"response_surfaces.py")],observe=["predict","gradient","predict_av","gradient_av","__call__"])
p("C18","Linear and quadratic programs return feasible optimal points",
 "For every feasible bounded linear program and every convex quadratic program of the four supported forms, the solver returns a point, shaped as a column, that satisfies all constraints and attains the optimal objective value up to solver tolerance, whichever backend (SciPy or Gurobi) is in use; infeasible programs raise an exception instead of returning a point. The backend is Gurobi exactly when it is requested and installed, else SciPy.",
 ["inputs","configurations"],"all small programs with coefficients from a finite set, both backends, all four forms",
 "Tests solve one instance per form, with bounds that are symmetric or inactive; the Gurobi branch is never executed here.",
 [S+"utils/qp_solver.py"],[("QPSolver",S+"utils/qp_solver.py")],observe=["linear_program_eq","linear_program_ineq","quadratic_program_bnd","quadratic_program_ineq"])
p("C19","Minimization on the domain returns a feasible minimizer with its value",
 "For every smooth convex function of the active variables, minimization returns a point of the active domain (any point, when unbounded) at which the function has the reported value, and this value is the minimum over the domain up to solver tolerance, with or without a given gradient and for every dimension. For a function with several minima no start of the built-in multistart finds a better value than the one returned. Minimizing a trained surface returns an input point that maps to the minimizer of the surface and, for bounded inputs, lies in the hypercube.",
 ["inputs","configurations"],"all convex functions from a finite family, all domains, with and without gradient; multistart outcomes",
 "The minimization tests did not run with current scipy and look at no result.",
 [S+"optimizers.py"],[("av_minimize",S+"optimizers.py"),("interval_minimize, zonotope_minimize, unbounded_minimize",S+"optimizers.py"),("minimize",S+"optimizers.py")],
 observe=["av_minimize","minimize"])
p("C20","Minimizing maps choose the inactive variables that minimize the quadratic",
 "After training on data from a convex quadratic function that its leading eigenvector coordinates describe, the minimizing inverse map sends each active point to the one input point with these active variables that minimizes the fitted quadratic plus 0.005 times the squared norm of the inactive variables, among all inputs for unbounded and among the points of the hypercube for bounded maps. The results for several active points are those of each point alone, in order, and asking for more than one point per active point is refused.",
 ["inputs","configurations"],"all convex quadratic functions, subspaces, dimensions and active points",
 "No test looks at the points the minimizing maps return.",
 [S+"optimizers.py"],[("MinVariableMap.train",S+"optimizers.py"),("BoundedMinVariableMap.regularize_z",S+"optimizers.py"),("UnboundedMinVariableMap.regularize_z",S+"optimizers.py")],
 observe=["inverse","regularize_z"])
p("C21","Randomness comes only from numpy's generator and is left undisturbed",
 "Every public operation gives identical results when numpy's global random generator is set to the same state before it, whatever ran earlier in the process. Operations that are deterministic by nature (normalizing, forward maps, designs, Gauss rules, polynomial and radial basis surfaces, linear and quadratic programs, minimization) give the same result for every state of the generator and leave its state exactly as it was, also when they fail.",
 ["histories","fault_sequences","schedules"],"all operations in all orders, all generator states, failures of the user's function at any call",
 "Tests check that the maximin design repeats; nobody looks at the generator's state afterwards, least of all after a failure.",
 [S+"optimizers.py",S+"utils/designs.py",S+"subspaces.py",S+"domains.py",S+"gradients.py"],[("local random generators for starting points",S+"optimizers.py"),("maximin_design",S+"utils/designs.py")],
 state=[("numpy.random global state","the only source of randomness","numpy")],observe=["numpy.random.get_state()","results"])
p("C22","Operations do not modify or depend on the layout of their arguments",
 "No public operation changes an array the caller passes in or an object the caller passes in (other than the object whose training or computing method is called), and results do not depend on memory layout (contiguous, transposed or strided view), on read-only flags, or on integers given instead of equal floats. The results of separate calls never share memory with each other or with global state, so changing a returned array changes no later result, and no later call changes an array returned before.",
 ["inputs","configurations","histories"],"all public operations with all combinations of layouts, dtypes and flags of their array arguments",
 "All test arrays are freshly built contiguous writable float arrays that are not looked at again.",
 [S+"utils/misc.py",S+"utils/response_surfaces.py",S+"domains.py",S+"subspaces.py"],[("process_inputs, process_inputs_outputs",S+"utils/misc.py"),("copies in predict/train/inverse",S+"utils/response_surfaces.py")],
 observe=["argument arrays after the call","results across layouts"])
p("C23","A failing simulation or training leaves earlier results usable",
 "When the user's function raises at any call, the exception reaches the caller unchanged, no further simulations are run, and every object involved (response surface, map, domain, subspaces) behaves exactly as before the failed call; repeating the call without the fault gives the same result as if the failure had never happened. The same holds when training is refused, for instance for too few points.",
 ["fault_sequences","histories"],"failure at each single call of the user's function, in every operation that takes one, followed by any use of the objects",
 "No test lets the user's function fail.",
 [S+"response_surfaces.py",S+"integrals.py",S+"gradients.py",S+"utils/simrunners.py",S+"utils/response_surfaces.py",S+"optimizers.py"],[("results are stored after all steps succeeded",S+"utils/response_surfaces.py")],
 observe=["exception","number of calls","predictions before and after"])
p("C24","Invalid arguments are refused before any work is done",
 "Arguments that the documentation excludes are refused with an exception: inputs that are not two-dimensional, different numbers of inputs and outputs, outputs with several columns, missing data for the chosen subspace type, unknown subspace or partition types, partition dimensions outside 1..m or not integer, uncomputed subspaces, objects of the wrong class, non-integer numbers of points, too few samples for a model, neighbor counts outside m+1..M, non-callable simulations. No simulation is run before the refusal, and the nearest valid arguments are accepted.",
 ["inputs","configurations"],"all public entry points and all single-argument violations of their documented conditions",
 "Three of the many refusals are tested.",
 [S+"utils/misc.py",S+"subspaces.py",S+"domains.py",S+"gradients.py",S+"integrals.py",S+"response_surfaces.py",S+"utils/quadrature.py",S+"utils/simrunners.py"],
 [("process_inputs, process_inputs_outputs",S+"utils/misc.py"),("type checks at the public entry points",S+"integrals.py")],observe=["exceptions raised","calls received by the user's function"])
p("C25","Designs have the requested points inside the domain",
 "The interval design has N equally spaced interior points without the endpoints, the Gauss-Hermite design is the node set of the tensor rule, and the maximin design has N points inside the polytope of the given vertices, wherever the polytope lies and whatever its size, well separated from each other and from the vertices; it is the best of the designs found by its local searches, and a search that fails does not matter when another succeeds. The design for a map has the kind that fits its domain, with the NMC inputs of every point mapping to it, in order.",
 ["inputs","configurations"],"all intervals, polytopes (symmetric or not), point counts and maps",
 "The maximin tests did not run with current scipy and use one square centered at zero.",
 [S+"utils/designs.py",S+"response_surfaces.py"],[("interval_design, maximin_design, gauss_hermite_design",S+"utils/designs.py"),("av_design",S+"response_surfaces.py")],
 observe=["returned designs"])
p("C26","Plots show exactly the given data and files go where documented",
 "Each diagnostic plot draws exactly the arrays it was given: eigenvalues and subspace errors by index with their bootstrap ranges as band, each eigenvector in its own panel with its own range (at most four), summary plots of the outputs against the first one or two active variables, and zonotope plots with all edges of the domain; data and ranges lie within the limits of the axes and nothing covers them. With saving enabled one file per figure is written to the figs directory, named by kind, output label and file type, and without it nothing is written.",
 ["inputs","configurations"],"all combinations of optional arguments, numbers of eigenvectors, labels and options",
 "The plotting tests only check that nothing is raised.",
 [S+"utils/plotters.py"],[("eigenvalues, subspace_errors, eigenvectors, sufficient_summary, zonotope_2d_plot",S+"utils/plotters.py"),("plot_opts",S+"utils/plotters.py")],
 observe=["artists of the matplotlib figures","files written"])
p("C27","Functions of few linear combinations are treated exactly throughout",
 "When the simulation depends on its inputs only through k linear combinations of them, f(x) = h(A'x), every stage of the pipeline is exact. All eigenvalues after the k-th vanish (also in all bootstrap replicates) and the first k eigenvectors from gradients span the combinations, also with weights and, up to the error of differences, from finite differences, and from quadratic models when h is quadratic; a linear function gives its direction and squared slope with every method. All inputs returned for one active point have the same value, so conditional variances are zero and the bounds of an integral coincide with it; the integral equals the rule on the active variables whatever inputs are drawn, and the exact expectation when h is a polynomial the Gauss rule integrates. A polynomial surface of sufficient degree trained from data or from the simulation predicts values and gradients exactly everywhere, and minimization of a convex quadratic or, for bounded inputs, a linear h finds the minimum over all inputs.",
 ["inputs","configurations","schedules"],"all ridge functions (inputs m, combinations k, directions, profiles h), both kinds of inputs, all random answers",
 "The tests run the stages separately on one seeded data set; that the stages fit together, and that nothing leaks from the inactive directions, is checked nowhere.",
 [S+"subspaces.py",S+"gradients.py",S+"domains.py",S+"integrals.py",S+"response_surfaces.py",S+"optimizers.py",S+"utils/misc.py"],
 [("Subspaces.compute",S+"subspaces.py"),("ActiveVariableMap.inverse",S+"domains.py"),("integrate, av_integrate",S+"integrals.py"),("ActiveSubspaceResponseSurface",S+"response_surfaces.py"),("minimize",S+"optimizers.py")],
 observe=["eigenpairs, inputs, integrals, predictions and minimizers compared with h"])
p("C28","Results follow relabeled inputs, reordered samples and other units",
 "Permuting or mirroring the inputs (or rotating unbounded ones) permutes, mirrors or rotates the estimated directions, domains, gradients and minimizers accordingly and changes no eigenvalue, bootstrap range, dimension, prediction or minimum. Reordering the samples together with their outputs, gradients and weights changes no result except its order. Replacing the output f by a f + b multiplies eigenvalues and their ranges by a squared, gradients by a, and maps predictions, integrals with their bounds, and (for positive a) minima in the same way as f; directions, subspace errors, chosen dimensions and coefficients of determination stay the same. Normalized inputs and polynomial surfaces do not depend on the units of the inputs, programs not on the order and signs of variables, the order of constraints or the scale of a linear objective, and tensor rules not on the order of variables.",
 ["inputs","configurations","schedules"],"all data sets, all signed permutations and rotations of inputs, all orders of samples, all affine changes of units, with equal random answers",
 "Comparing pairs of runs needs no known answer and covers all transformations; the tests compare single runs with stored numbers.",
 [S+"subspaces.py",S+"gradients.py",S+"domains.py",S+"integrals.py",S+"optimizers.py",S+"utils/response_surfaces.py",S+"utils/misc.py",S+"utils/quadrature.py",S+"utils/qp_solver.py"],
 [("Subspaces.compute",S+"subspaces.py"),("BoundedActiveVariableDomain",S+"domains.py"),("integrate",S+"integrals.py"),("PolynomialApproximation, RadialBasisApproximation",S+"utils/response_surfaces.py"),("QPSolver",S+"utils/qp_solver.py")],
 observe=["pairs of results of transformed calls"])
p("C29","Tutorial models compute the documented functions and their gradients",
 "The models shipped with the tutorials (borehole, OTL circuit, piston, robot arm and wing weight on normalized inputs; the first tutorial's wing weight on inputs in their own units, with the sweep in degrees and its derivative per radian) return, for every M-by-m array of inputs in their domain, an M-by-1 array of the published formula's values and an M-by-m array of its gradients by the chain rule for normalized inputs. Every row's results depend on that row alone; floating-point, integer, one-dimensional and any memory layout of the inputs give the same results, and the caller's inputs stay unchanged.",
 ["inputs"],"all corners, all grid points around the center, general points; all numbers and subsets of rows",
 "The repository's tests do not call these models, and a derivative wrong in one input or beyond one corner passes a glance at a plot.",
 ["tutorials/wing_functions.py"]+["tutorials/test_functions/"+x for x in ("borehole/borehole_functions.py","otl_circuit/otlcircuit_functions.py","piston/piston_functions.py","robot/robot_functions.py","wing_weight/wing_functions.py")],
 [("wing, wing_grad","tutorials/wing_functions.py"),("borehole, borehole_grad","tutorials/test_functions/borehole/borehole_functions.py")],
 observe=["values and gradients at every point"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
