import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
S="src/modopt/"
A=S+"opt/algorithms/"
p("C01","Forward-backward solvers compute the published iteration at every step",
 "Every iteration of the forward-backward, generalised forward-backward and POGM solvers computes exactly the published update from the current state: the gradient is taken at the point the scheme prescribes, the proximity operator receives the step-size (or step-size over weight, or the POGM xi) as its scaling factor, and relaxation, momentum and restart use the documented formulas. The step size and relaxation start from the values the user gave (an explicit step size taking precedence) and change only through the user's update rules. The reported final solution is the documented iterate of the last iteration.",
 ["inputs","histories","configurations"],"all starting points, operators, step sizes, relaxation parameters, update rules, weights and numbers of iterations",
 "Tests run a handful of tiny problems to convergence, where many wrong updates (wrong scaling factor, swapped old/new iterate, unused parameter) still converge to the same fixed point.",
 [A+"forward_backward.py",A+"base.py"],
 [("ForwardBackward step","forward_backward.py:ForwardBackward._update/_update_param"),("GenForwardBackward step","forward_backward.py:GenForwardBackward._update"),("POGM step","forward_backward.py:POGM._update")])
p("C02","FISTA step, extrapolation and restart rules are the published ones",
 "In regular mode the extrapolation factor is 1+(t_old-1)/t_new with t_new = p + sqrt(r*t_old^2+q)/2, in Chambolle-Dossal mode t_n = (n+a-1)/a, and under greedy restarting it is constantly 2. A restart is signalled exactly when <z_old-x_new, x_new-x_old> >= 0 and a restart strategy is selected; adaptive strategies then damp r, the second adaptive variants also reset t, and the greedy variant shrinks the step by xi, never below the minimum, only while the change between iterates exceeds s times the first observed change. Invalid combinations of these parameters are refused when the solver is built.",
 ["inputs","histories","configurations"],"all sequences of iterates, all restart strategies and parameter values",
 "The rule is a state machine over the history of iterates; the tests check one or two calls with fixed numbers.",
 [A+"forward_backward.py"],
 [("update_lambda/update_beta/is_restart","forward_backward.py:FISTA"),("restart on the iterates","forward_backward.py:ForwardBackward._update")])
p("C03","The primal-dual solver computes the published iteration at every step",
 "Every iteration of the Condat solver computes the primal proximity step from gradient and adjoint of the dual, the dual step through the Moreau identity with the dual proximity operator scaled by 1/sigma, and relaxes both variables with rho; rho, sigma and tau change only through their own update rules, after the iterates. Reweighting uses the current primal solution in the transformed domain and is followed by a full run, the requested number of times. The final primal and dual solutions are the last relaxed iterates.",
 ["inputs","histories","configurations"],"all starting points, operators, parameters, update rules, reweighting schemes and iteration counts",
 "Tests only look at the solution of one small problem, where most wrong updates share the fixed point.",
 [A+"primal_dual.py"],[("Condat step","primal_dual.py:Condat._update/_update_param"),("reweighting loop","primal_dual.py:Condat.iterate")])
p("C04","The gradient-descent family computes the documented updates at every step",
 "Every iteration evaluates the gradient at the current point, updates direction and speed by the variant's rule (plain, Adagrad, RMSprop, momentum, ADAM with bias correction, SAGA with per-sample gradient memory), moves by eta/(sqrt(speed)+epsilon) times the direction, and at the start of each epoch resets the variant's state and applies the proximity operator scaled by that step. The learning rate changes only through the user's rule, given the current rate and iteration number. Each variant is used with the parameters the user supplied.",
 ["inputs","histories","configurations"],"all starting points, gradients, parameters, epoch sizes and iteration counts",
 "The updates depend on the history of gradients and on the position within the epoch; the tests run one fixed problem per variant.",
 [A+"gradient_descent.py"],[("generic step","gradient_descent.py:GenericGradOpt._update"),("variants","gradient_descent.py:*GradOpt")])
p("C05","ADMM solvers compute the documented alternating updates at every step",
 "Every ADMM iteration solves the first subproblem starting from the current first variable, the second one starting from the current second variable using the new first variable, and then adds the constraint residual A u + B v - b to the multiplier; the final solutions are the last iterates. The accelerated variant extrapolates second variable and multiplier with the published momentum sequence while the combined residual decreases by the factor eta and otherwise restarts from the previous iterates. The reported cost is the sum of both cost functions plus tau times the squared constraint residual.",
 ["inputs","histories","configurations"],"all starting points, operators, subproblem optimisers, parameters and iteration counts",
 "The tests run one problem whose optimisers hide the multiplier and the momentum sequence.",
 [A+"admm.py"],[("ADMM step","admm.py:ADMM._update"),("fast ADMM step","admm.py:FastADMM._update"),("cost","admm.py:ADMMcostObj._calc_cost")])
p("C06","Solvers iterate, stop and report exactly as controlled by the user",
 "A solver performs at most the requested number of iterations and stops right after the first iteration whose convergence test (cost stagnation or an early-stopping metric) succeeds, never otherwise; the iteration counter seen by callbacks and metrics is the true one. Metrics are evaluated on the iterations that are multiples of the metric period, on the last one and on convergence, and only when metrics were requested; a progress bar, if any, advances once per completed iteration and never changes the results. Solver construction runs the iterations only when automatic iteration is requested.",
 ["histories","inputs","configurations"],"all iteration limits, metric periods, convergence histories, progress settings and solvers",
 "It must hold for every convergence history and period; tests use one limit and one period and never count evaluations.",
 [A+"base.py",A+"forward_backward.py",A+"primal_dual.py",A+"gradient_descent.py",A+"admm.py"],
 [("iteration loop","base.py:SetUp._iterations/_run_alg"),("convergence flag","*: _update, SetUp.any_convergence_flag"),("iterate","*: iterate")])
p("C07","Total cost and the cost convergence test follow their definition",
 "The total cost is the sum of the costs of all operators, evaluated on every call whose number is a multiple of the cost interval (and never without an interval), recorded in order in the cost history. Convergence is reported exactly when, on a full test window, the relative change between the mean of the older and the newer half does not exceed the tolerance (a vanishing newer mean counts as converged), after which the window starts afresh. Verbosity has no influence on the result.",
 ["histories","inputs","configurations"],"all cost sequences, intervals, window lengths and tolerances",
 "The window logic is a state machine over the whole cost history; tests feed two or three values.",
 [S+"opt/cost.py"],[("cost evaluation","cost.py:CostParent.get_cost"),("window test","cost.py:CostParent._check_cost"),("sum of operators","cost.py:costObj._calc_cost")])
p("C08","Observers are registered, notified and always released consistently",
 "An observer is registered at most once per signal, only for allowed signals (anything else is refused with an error), can be removed again, and on each notification every registered observer is called once, in order, with the object, the signal and all supplied values. Re-entrant notification is refused and reported, and after any notification, including one in which an observer fails, later notifications work. Metric observers record index, date and value per call, and declare convergence exactly when the relative change of the two half-window means falls below their threshold.",
 ["histories","fault_sequences","inputs"],"all sequences of registrations, removals and notifications, including failing and re-entrant observers",
 "Exceptional exits and re-entrant orders are not sampled by tests; one exit path that keeps the lock silences all later notifications.",
 [S+"base/observable.py",A+"base.py"],[("notification lock","observable.py:Observable.notify_observers"),("registry","observable.py:Observable"),("metric window","observable.py:MetricObserver")])
p("C09","Caller-owned and operator-owned arrays are never modified or captured",
 "No function, operator or solver modifies an array, list or dictionary passed in by the caller, nor an array obtained from a user-supplied operator; solver state that is later updated in place never shares memory with the caller's starting points or with operator-owned arrays. The only exceptions are the documented ones: the reweighting scheme updates the weights it was given, and observed data are made read-only. Calling the same function twice with the same inputs therefore gives the same results.",
 ["inputs","histories","programs"],"all inputs, all user operators (including those returning views or stored arrays) and all call sequences",
 "Aliasing only shows with particular operators (returning a stored array or the input itself) and later in-place updates; tests use fresh arrays each time.",
 ["src/modopt"],[("copies of starting points","opt/algorithms/*: __init__"),("in-place updates","opt/algorithms/*: _update"),("signal/math/base functions","whole package")])
p("C10","Proximity operators apply their documented formula, scaled by the factor",
 "Each elementary proximity operator (identity, positivity, sparse threshold, ordered weighted l1, ridge, elastic net, k-support norm, group lasso) returns the documented closed form for every input, with all its weights multiplied by the scaling factor supplied by the solver and by nothing else. Its cost is the documented penalty of its input, independent of verbosity. Neither depends on earlier calls.",
 ["inputs","histories"],"all input arrays, weights, parameters and scaling factors",
 "Tests evaluate each operator on one array with the default factor, so an ignored or misapplied scaling factor goes unnoticed.",
 [S+"opt/proximity.py",S+"signal/noise.py",S+"signal/positivity.py"],[("op and cost of each operator","proximity.py: *._op_method/_cost_method")])
p("C11","Composite proximity and linear operators combine their parts faithfully",
 "A combination of operators applies the i-th operator to the i-th component, with the same scaling factor, and its cost is the sum of the component costs; a proximity operator composed with a linear operator is adjoint-prox-forward with the factor passed on. A linear combination applies every operator to the input and its adjoint is the (weighted, otherwise plain) mean of the component adjoints. Identity and matrix operators pair each forward map with its true adjoint, including complex matrices.",
 ["inputs","configurations"],"all operator lists, weights, inputs and scaling factors",
 "Tests use two identical component operators and default factors, so mixed-up indices or dropped factors are invisible.",
 [S+"opt/proximity.py",S+"opt/linear/base.py"],[("combos","proximity.py:ProximityCombo, LinearCompositionProx; linear/base.py:LinearCombo"),("matrix operator","linear/base.py:MatrixOperator, Identity")])
p("C12","Gradient operators return the gradient of the cost they report",
 "For observed data y and operators A and A^T the basic gradient is A^T(A x - y) and its cost is half the squared norm of y - A x, for every x; user-supplied gradient and cost callables are used unchanged. Observed data are validated and, unless requested otherwise, made read-only; gradients and data are converted to float exactly when a float type is requested. Setting an operator or method that is not callable is refused.",
 ["inputs","configurations"],"all observed data, operators, points and data types",
 "A wrong sign, operator order or factor is only visible for operators and points the tests do not use.",
 [S+"opt/gradient.py",S+"base/types.py"],[("gradient and cost","gradient.py:GradBasic"),("validation","gradient.py:GradParent, types.py")])
p("C13","Thresholding and positivity act element by element as documented",
 "Hard thresholding keeps exactly the entries whose modulus reaches the threshold and zeroes the others, soft thresholding shrinks the modulus of every entry by the threshold down to zero keeping sign or phase, and positivity keeps positive entries and zeroes the rest, for scalars, arrays and nested ragged data. Results do not depend on backend or on previous calls. Unknown threshold types and unsupported input types are refused.",
 ["inputs","configurations"],"all real or complex inputs, scalar or array thresholds, nested data",
 "Boundary values, complex data, array thresholds and nesting are a large space; tests check one integer array.",
 [S+"signal/noise.py",S+"signal/positivity.py"],[("thresholding","noise.py:thresh"),("positivity","positivity.py:positive")])
p("C14","Low-rank thresholding acts on singular values as documented",
 "Singular value thresholding reconstructs the data from the same singular vectors with only the singular values (or, with an operator, the coefficients scaled by the operator norms of the left vectors) thresholded by the requested rule and level, where the level is derived from the requested number of principal components when none is given. The fast variant returns the same reconstruction using a partial decomposition that is enlarged until every omitted singular value is at most the threshold or no more are available, and reports the resulting rank. The low-rank proximity operator applies these to the unfolded data cube with the threshold scaled by the solver's factor and folds the result back to the input shape, and its cost is the threshold times the nuclear norm.",
 ["inputs","histories","configurations"],"all data matrices, thresholds, ranks, types and successive calls",
 "Degenerate ranks, array thresholds and successive calls with an evolving rank are not sampled.",
 [S+"signal/svd.py",S+"opt/proximity.py",S+"math/matrix.py"],[("svd thresholding","svd.py"),("low rank proximity","proximity.py:LowRankMatrix")])
p("C15","Data layout transforms are mutually inverse and keep every value",
 "Cube to map, map to matrix and cube to matrix each place element (k,i,j) at the documented position, and the inverse transforms restore every element at its original position with unchanged value and type, for every layout. Layouts that do not fit the data are refused. Axis-rolling transposes, 180-degree rotations and zero padding move every element to the documented position.",
 ["inputs","configurations"],"all data shapes, types and layouts",
 "Index arithmetic errors and type truncation show only for non-square layouts or non-integer data; the tests use one 2x2 layout of small integers.",
 [S+"base/transform.py",S+"base/np_adjust.py"],[("cube/map/matrix","transform.py"),("rotate, pad2d, fancy_transpose","np_adjust.py")])
p("C16","Convolutions, filter banks and wavelet operators compute matching pairs",
 "Convolution of data with a kernel uses the requested method (falling back to the available one) with the documented boundary and size, stacks are convolved pairwise, and the rotated variant uses the 180-degree rotated kernel. The filter-bank operator convolves every image with every filter and its adjoint sums the convolutions of the coefficients with the rotated filters, using the same filters and method. The wavelet transform analyses and synthesises with the same wavelet, level and boundary mode the user requested, for single and batched data; Gaussian and Mexican-hat filters return their documented formula.",
 ["inputs","configurations"],"all data, kernels, filters, methods, wavelets, modes, levels and batch sizes",
 "Mode, method and batch options have many combinations; tests exercise the default ones.",
 [S+"math/convolve.py",S+"signal/wavelet.py",S+"signal/filter.py",S+"opt/linear/wavelet.py"],[("convolve","convolve.py"),("filter bank","signal/wavelet.py:filter_convolve*"),("wavelet operators","opt/linear/wavelet.py"),("filters","signal/filter.py")])
p("C17","Matrix helpers and the power method compute their definition",
 "Gram-Schmidt subtracts from each row its projections on all previous orthogonal rows and normalises on request; projection, nuclear norm, rotation matrix and matrix rotation follow their definitions. The power method repeatedly applies the operator to the normalised previous vector, stops at the first step whose norm changes by less than the tolerance or at the iteration limit, and reports that norm times the extra factor and its inverse. The partial components and options requested are the ones returned.",
 ["inputs","histories"],"all matrices, angles, operators, tolerances and iteration limits",
 "Tests check a 3x3 example and one operator.",
 [S+"math/matrix.py"],[("gram_schmidt, project, rotate","matrix.py"),("power iteration","matrix.py:PowerMethod.get_spec_rad")])
p("C18","Quality metrics and statistics compute their documented definition",
 "Each image metric compares the min-max normalised moduli of both images, restricted to the mask in both when one is given, by its documented formula, and each statistic (median absolute deviation and its sigma, mean squared error, both PSNR definitions, stacks, Gaussian kernel normalisation) follows its definition. Inputs of metrics are treated alike whether or not a mask covers everything. Invalid masks, norms and methods are refused.",
 ["inputs","configurations"],"all image pairs, masks, methods and norms",
 "Tests compare with one stored value per metric using a mask of ones, which cannot reveal a wrongly applied mask.",
 [S+"math/metrics.py",S+"math/stats.py"],[("ssim, snr, psnr, mse, nrmse","metrics.py"),("mad, mse, psnr, gaussian_kernel","stats.py")])
p("C19","Invalid arguments are refused with the documented error, valid ones accepted",
 "Every argument check of the public interface (types, dimensions, shapes, option names, parameter ranges, weights, callables, operator lists) raises the documented exception type exactly for the documented set of invalid values, before any result is produced, and never for a valid value. The conversion helpers convert exactly the documented input types to float or integer and leave already correct ones as they are.",
 ["inputs","configurations"],"all argument values of all public functions, operators and solvers",
 "Each check is a predicate over unbounded inputs; tests try one bad value each, and a weakened or over-strict predicate passes them.",
 ["src/modopt"],[("validation helpers","base/types.py"),("algorithm checks","opt/algorithms/base.py:SetUp._check_*"),("per-function checks","whole package")])
p("C20","Random results are reproducible from the generator or seed supplied",
 "Every random quantity is drawn only from the generator or seed the caller supplies: the same seed gives the same noise, test vectors and power-method start, and no global random state influences a result or is reseeded. Noise is added with the requested law and the per-layer or common level, and the adjoint test compares both inner products of the drawn vectors. Without a seed a fresh independent generator is used.",
 ["inputs","histories","configurations"],"all seeds, generators, shapes and call histories",
 "Tests use one seed; a dropped or overridden generator argument is not observable in a single call.",
 [S+"signal/noise.py",S+"signal/validation.py",S+"math/matrix.py",S+"signal/wavelet.py"],[("rng handling","noise.py:add_noise, validation.py:transpose_test, matrix.py:PowerMethod")])
p("C21","Nothing is printed unless verbosity is requested",
 "Apart from the routines whose purpose is to print, no function or solver writes to standard output unless its verbosity option is on, and warnings and errors go to standard error (and to the log when one is given). Turning verbosity on or off never changes a result. The messages report the quantities they name.",
 ["inputs","configurations","histories"],"all calls with verbosity off, on every path",
 "Output on rarely taken branches is not captured by tests, which never check stdout.",
 ["src/modopt"],[("print sites","whole package"),("warnings","interface/errors.py")])
p("C22","Backends and optional packages degrade as documented",
 "Requesting an unknown or unavailable array backend falls back to numpy with a warning and reports numpy as the backend in use; arrays are recognised by, converted to and moved from their own backend. When an optional package is missing, every feature that needs it either raises the documented import error or uses the documented fallback, and never fails with an undefined name; everything else keeps working.",
 ["configurations","inputs"],"all subsets of installed optional packages, all backend names and array types",
 "Tests run with one fixed set of installed packages.",
 [S+"base/backend.py","src/modopt"],[("backend table","backend.py:LIBRARIES/get_backend/get_array_module"),("import guards","convolve.py, metrics.py, stats.py, proximity.py, wavelet.py, cost_plot.py, errors.py")])
p("C23","No call path fails on an undefined name, attribute or wrong arity",
 "On every path reachable from the public interface each name, attribute and method that is used has been defined, each internal call supplies arguments its target accepts, and what is raised is an exception. No documented option therefore ends in an internal error unrelated to the user's input.",
 ["inputs","configurations","histories"],"all paths through all functions and methods of the package",
 "Misspelt attributes and wrong calls on rare branches are only hit when the branch is executed.",
 ["src/modopt"],[("attribute and name resolution","whole package")])
p("C24","External commands, temporary files and logs are handled cleanly on all paths",
 "The external wavelet transform writes its temporary files under unique names in the requested directory, passes them and all options unchanged to the program, reports the program's error as an exception, and removes its temporary files on every exit when removal was requested. Commands run without a shell and return both decoded output streams. A log set up by the library receives messages in its own file only and closing it detaches and closes all its handlers.",
 ["crash_points","inputs","fault_sequences"],"all failures of the program or of reading its output, all options and paths",
 "The external program is not installed in the test environment and failures between creation and removal are not simulated.",
 [S+"signal/wavelet.py",S+"interface/log.py",S+"interface/errors.py"],[("temporary files","signal/wavelet.py:call_mr_transform"),("handlers","interface/log.py:close_log"),("executable test","interface/errors.py:is_executable")])
p("C25","Every documented option takes effect",
 "Every parameter of a public function, operator or solver influences its result, effects or validation as documented: it is not silently ignored, overwritten, or replaced by a constant or by another argument. Options forwarded to a parent or helper arrive under their own name. Default values are the documented ones.",
 ["configurations","inputs"],"all parameters of the public interface",
 "Tests rarely vary an option away from its default and cannot see that it is ignored.",
 ["src/modopt"],[("parameters and forwarding","whole package")])
p("C26","Reweighting multiplies the weights by the documented factor each time",
 "Each reweighting multiplies the current weights by 1/(1+|x|/(k*w0)) with w0 the original weights, k the threshold factor and x the current data, so that successive reweightings compound on the weights shared with the proximity operator. Data of another shape are refused without changing the weights. The reweighting number reported counts the calls.",
 ["histories","inputs"],"all sequences of reweightings, data and factors",
 "The compounding over a sequence of calls and the sharing of the weights are not checked by a single-call test.",
 [S+"opt/reweight.py"],[("reweighting","reweight.py:cwbReweight.reweight")])
p("C90","Solvers converge to a minimiser of the stated problem",
 "For convex problems with admissible step sizes the iterates of each solver converge to a minimiser of the total cost, and the accelerated variants do so at their published rate.",
 ["inputs","histories"],"all convex problems and admissible parameters",
 "Only sampled problems can be run.",
 ["src/modopt/opt/algorithms"],[("solvers","opt/algorithms/*")])
p("C91","Partial and search-based numerical routines reach their stated accuracy",
 "The power method's estimate is within tolerance of the true spectral radius, the k-support search returns the true threshold, and FFT-based convolution and the SVD agree with their exact definition up to rounding.",
 ["inputs"],"all inputs",
 "Only sampled inputs can be run.",
 ["src/modopt/math/matrix.py","src/modopt/opt/proximity.py"],[("numerical routines","PowerMethod, KSupportNorm._binary_search")])
open(__file__.rsplit('/',2)[0]+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
