D = "dolo/numeric/distribution.py"; PR = "dolo/numeric/processes.py"; DI = "dolo/numeric/discretization/discretization.py"; QU = "dolo/numeric/discretization/quadrature.py"

prop("P01", "Rouwenhorst chain of an AR(1) has its mean, variance and a stochastic matrix",
     "For every persistence in (-1,1), every innovation standard deviation and every number of states, discretizing a scalar AR(1) with the Rouwenhorst method gives symmetric evenly spaced nodes and a transition matrix with nonnegative entries and rows summing to one. In every state the conditional mean of the next node is the persistence times the current node and the conditional variance is the innovation variance.",
     "all rho in (-1,1), sigma > 0, each N", "the existing test compares one chain with stored numbers",
     [DI], [("rouwenhorst, __rouwenhorst_rec", DI)], "N = 1..5 quick, ..8 thorough.")
prop("P02", "Tauchen chain holds the exact cell probabilities of the AR(1)",
     "For every mean, persistence in (-1,1), standard deviation, width and number of nodes, the Tauchen chain has evenly spaced nodes symmetric around the mean whose outermost node lies the requested number of unconditional standard deviations away. Each transition probability is the normal probability that the next value of the process falls in the cell around the target node, so entries are in [0,1] and rows sum to one.",
     "all parameters, each N", "one stored example",
     [DI], [("tauchen", DI)], "N = 2..5 quick, ..8 thorough; the normal CDF is an arbitrary nondecreasing function.")
prop("P03", "Markov chains of AR(1)/VAR(1) processes keep the conditional moments",
     "The Markov chain built from a VAR(1) with scalar persistence, any mean and any covariance matrix (including variables without noise) has in every state conditional mean mu + rho (x - mu) and conditional covariance exactly equal to the innovation covariance, so correlated shocks stay correlated and variables without noise stay at their mean. The persistence, mean and covariance given by the user are not modified, and persistence matrices that cannot be represented are refused instead of being silently replaced.",
     "all rho, mu, positive semidefinite Sigma", "tests only check that the call runs on two examples",
     [PR, DI], [("VAR1.discretize_mc, AR1.discretize_mc", PR), ("multidimensional_discretization", DI)], "dimension 1..3, 2..3 nodes per dimension.")
prop("P04", "Product of Markov chains is the joint law of independent chains",
     "The product of several Markov chains has as states all combinations of the component states (first chain slowest), with the concatenated values, and the probability of a joint transition is the product of the component transition probabilities. Hence each component keeps its own law whatever the number, size and dimension of the chains, and every row sums to one.",
     "all transition matrices and node values of the given sizes", "one product of two fixed chains is tested",
     [PR, DI], [("ProductProcess.discretize, MarkovProduct", PR), ("tensor_markov", DI)], "2..3 chains (4 thorough), 1..3 states, 1..2 variables.")
prop("P05", "Discrete iid laws, products and mixtures carry the right points and weights",
     "Every discrete distribution hands out its points with weights that form its probability law: weights are nonnegative and sum to one, the weights and points iterate consistently with their indexed access, a product of independent laws has the product weights on all combinations of points, a constant is a certain point and a mixture gives each component its index probability. Turned into a Markov chain, an iid law has that same law in every row.",
     "all probabilities and points", "tests look at shapes or single fixed examples",
     [D, PR], [("FiniteDistribution, EquiprobableDistribution, ProductDiscretizedProcess, Mixture, ConstantProcess, Bernouilli", D)], "1..3 components with 1..3 points.")
prop("P06", "Gauss-Hermite discretization matches the moments of the normal law",
     "For every mean vector and covariance matrix (also singular ones) Gauss-Hermite points and weights have weights summing to one, weighted mean equal to the mean and weighted covariance equal to the covariance matrix; in one dimension an n-point rule integrates polynomials up to degree 2n-1 exactly. The user's matrices are not modified.",
     "all mu, Sigma; each order", "one example compared with stored values",
     [D, QU], [("hermgauss, gauss_hermite_nodes", QU), ("Normal.discretize, UNormal.discretize", D)], "orders 1..8 (1d), 5x5 (2d), 3x3x3 (3d); moments to 1e-8 relative.")
prop("P07", "Equiprobable discretization puts points at quantiles of equally likely cells",
     "For every univariate law, the equiprobable discretization with N points places point k at the requested quantile of the k-th of N equally likely cells (median, left end, right end or middle), each with weight 1/N. A truncated law is discretized at the matching quantiles of its parent law and so stays inside the truncation bounds; the parameters given by the user (location, scale, bounds) are those of the law.",
     "all quantile functions, parameters, N", "one test on normal laws with fixed parameters",
     [D], [("ContinuousDistribution.discretize, Truncation, UNormal, Uniform, LogNormal, Beta", D)], "N = 1..6 (..10 thorough); the quantile function is an arbitrary nondecreasing function.")
prop("P08", "Simulated Markov chains follow their transition matrix",
     "A simulated Markov chain starts in the requested state and, from each state, moves to state j with exactly the tabulated probability for every possible value of the random number, so impossible transitions never happen. The chain always stays inside the state space, paths use separate random numbers, and reported values are the values of the visited states.",
     "all transition matrices, node values and random numbers", "simulation tests only look at output shape",
     [PR], [("choice, simulate_markov_chain, MarkovChain.simulate", PR)], "2..3 states, 1..2 simulations, 2..3 dates.", over=("inputs", "histories"))
prop("P09", "AR(1)/VAR(1) simulations and impulse responses follow the law of motion",
     "Simulated AR(1)/VAR(1) paths start at the requested value (the mean by default) and follow x' = mu + R (x - mu) + e where innovations are centered, have exactly the stated covariance and are independent across dates and simulations; without noise deviations decay by the persistence matrix. An impulse response starts at the impulse and is multiplied by the persistence matrix at each date.",
     "all R, mu, Sigma, impulses", "no test looks at the values of simulated or response paths",
     [PR], [("AR1.simulate, VAR1.simulate, AR1.response, VAR1.response", PR)], "dimension 1..2, horizon 2..4.", over=("inputs", "histories"))
prop("P10", "Random draws of iid laws lie in the support and have the stated law",
     "Every draw of an iid law has the documented shape and comes from its support: points with zero probability are never drawn, certain points always are, uniform and Bernoulli draws respect their bounds and probability, normal draws are the mean plus noise with the stated covariance. A mixture returns the draw of the component selected by its index, a product draws its components independently and simulated iid paths consist of such draws.",
     "all parameters and all random numbers", "tests draw a few numbers and check sizes",
     [D, PR], [("draw of Normal, Uniform, Bernouilli, Finite, Mixture, Product; IIDProcess.simulate/response", D)], "1..3 points, 1..3 draws, 1..2 variables.")
GR = "dolo/numeric/grids.py"; DR = "dolo/numeric/decision_rule.py"; SO = "dolo/numeric/serial_operations.py"; NW = "dolo/numeric/optimize/newton.py"; NC = "dolo/numeric/optimize/ncpsolve.py"
TIF = "dolo/algos/time_iteration.py"; ITF = "dolo/algos/improved_time_iteration.py"; EG = "dolo/algos/egm.py"; INV = "dolo/algos/invert.py"
prop("P11", "Discretized processes keep conditional moments and expose consistent laws",
     "For every persistence, mean and variance, the generalised discretization of an AR(1)/VAR(1) has in each node integration points and weights with the conditional mean and variance of the process, on evenly spaced nodes symmetric around its mean. Whatever the kind of discretized process, looking up nodes, integration points and weights one by one, iterating over them and reading the stored tables all describe the same law.",
     "all parameters, transition matrices, node values", "tests only check that discretization returns an object",
     [PR, QU], [("AR1.discretize_gdp, VAR1.discretize_gdp, GDP", PR), ("MarkovChain.iteritems/inode/iweight", PR)], "2..5 nodes, 1..2 variables.")
prop("P12", "Grids contain exactly the advertised points in the advertised order",
     "A Cartesian grid consists of all combinations of its per-dimension nodes, evenly spaced between its bounds when uniform, last dimension varying fastest, and the description given to interpolation routines is that of the same points. Sums, products and concatenations of grids keep the bounds and nodes of both operands; Cartesian products of node lists keep every value unchanged whatever the element types.",
     "all bounds and node values; each size", "tests compare shapes on two or three fixed grids",
     [GR, "dolo/numeric/misc.py"], [("UniformCartesianGrid, NonUniformCartesianGrid, UnstructuredGrid, EmptyGrid", GR), ("cartesian, mlinspace", "dolo/numeric/misc.py")], "1..3 dimensions of 1..4 points.")
prop("P13", "Decision rules reproduce nodal values and interpolate affine rules exactly",
     "A decision rule built from values on an exogenous and an endogenous grid returns those values at the grid points through every way of evaluating it (by exogenous index, exogenous value, pair of indices, single or several states), for every supported pair of grids. Piecewise linear rules reproduce affine functions everywhere inside the grid; constant rules return their constant; later changes of the arrays used to build a rule do not change it.",
     "all nodal values, grid bounds, evaluation points", "tests only run evaluation without comparing values",
     [DR, "dolo/numeric/interpolation"], [("DecisionRule, CallableDecisionRule, ConstantDecisionRule", DR)], "1..3 dimensions with 2..4 points, 1..2 controls.")
prop("P14", "Linear solves and multilinear products satisfy their defining equations",
     "Solving a batch of linear systems returns for each nonsingular system (whatever row exchanges are needed) the solution of that system, leaving inputs intact unless documented as in-place. Batched products and tensor contractions equal the sums that define them, for every shape, and the solution of a Sylvester equation satisfies the equation.",
     "all nonsingular matrices, all right-hand sides", "the existing tests solve one random batch",
     [NW, SO, INV, "dolo/numeric/tensor.py", "dolo/numeric/matrix_equations.py"], [("serial_solve, serial_multiplication", SO), ("invert, solve_gu, solve_tensor", INV), ("mdot, sdot", "dolo/numeric/tensor.py"), ("solve_sylvester", "dolo/numeric/matrix_equations.py")], "sizes 1..3, 1..2 systems.")
prop("P15", "Newton solver is exact on linear systems and honest about convergence",
     "On any nonsingular affine system the Newton solver ends on the exact solution, whichever way derivatives are stored, without touching the initial guess. On arbitrary functions it never claims convergence with a residual above the tolerance and never accepts a step that makes the residual worse than a shorter step it tried; numerical derivatives of quadratic functions are exact up to the step size.",
     "all affine systems; arbitrary functions", "tests solve a handful of fixed equations",
     [NW, SO], [("newton, SerialDifferentiableFunction", NW), ("numdiff, serial_numdiff", SO)], "1..2 equations, 1..2 observations, 1..2 iterations.")
prop("P16", "Complementarity reformulations vanish exactly at complementarity solutions",
     "For all values, bounds (finite or infinite) and residuals, every reformulation of a mixed complementarity problem used by the solvers is zero if and only if the residual is zero strictly inside the bounds, nonnegative at the lower and nonpositive at the upper bound (with the sign convention of the solver). The derivatives handed to the solvers are the exact derivatives of that reformulation for dense, batched and sparse storage.",
     "all values, residuals, bounds, derivatives", "tests solve two problems with one solver setting",
     [NC, "dolo/algos/fb.py", ITF, "dolo/numeric/extern/lmmcp.py"], [("ncpsolve, smooth", NC), ("fb/smooth_", "dolo/algos/fb.py"), ("smooth", ITF), ("Phi, DPhi", "dolo/numeric/extern/lmmcp.py")], "1..2 equations, 1..2 observations.")
prop("P17", "Euler residuals are conditional expectations over the current exogenous state",
     "For arbitrary model equations, grids, decision rules and transition laws, the residual computed at each exogenous node and endogenous point is the expectation, under the law of tomorrow's exogenous state given today's, of the optimality conditions with tomorrow's states given by the transition and tomorrow's controls by the decision rule. The reported derivatives with respect to today's and tomorrow's controls and the operators built from them are exact; steady-state residuals vanish exactly where states reproduce themselves and optimality holds.",
     "all model equations, node values, probabilities, rules", "tests compare converged solutions of one model",
     [TIF, ITF, INV, "dolo/algos/steady_state.py"], [("residuals_simple", TIF), ("euler_residuals, d_filt_dx, invert_jac", ITF), ("residuals", "dolo/algos/steady_state.py")], "1..3 exogenous nodes, 2..4 endogenous points, 1..2 states and controls.")
prop("P18", "Global solution methods iterate on the right system and report true convergence",
     "At every iteration of time iteration, improved time iteration and the endogenous grid method, the new rule solves today's complementarity problem given the previous rule, at every exogenous state and grid point, with the bounds of that state and point. The reported iterations, error and convergence are those of the returned rule, initial guesses of every accepted form are honoured, and the returned rule is built from the last iterate.",
     "all coefficients of the models, transition laws, guesses", "tests only check that iterations end",
     [TIF, ITF, EG], [("time_iteration", TIF), ("improved_time_iteration", ITF), ("egm", EG)], "2 exogenous nodes, 2..3 endogenous points, at most 2 iterations.", over=("inputs", "histories"))
PF = "dolo/algos/perfect_foresight.py"; SI = "dolo/algos/simulations.py"; ER = "dolo/algos/ergodic.py"; VI = "dolo/algos/value_iteration.py"; PT = "dolo/algos/perturbation.py"; LM = "dolo/numeric/extern/qz.py"
prop("P19", "Perfect foresight paths solve the stacked system of all dates",
     "For arbitrary model equations, horizons, bounds and exogenous paths, the system solved for a perfect foresight path requires the requested initial state, the transition at every date with the exogenous values of the right dates, and optimality of the controls under their bounds at every date; the derivatives given to the solver are exact. Every accepted form of exogenous path (array, table, process) is aligned with the dates, and the initial guess, bounds and options given by the user reach the solver unchanged.",
     "all paths, model functions, bounds, shock paths", "tests run one model with two shock paths",
     [PF], [("deterministic_solve, det_residual", PF)], "horizon 1..4, 1..2 states, controls, exogenous.", over=("inputs", "histories"))
prop("P20", "Simulations, responses and tabulations follow the model and the rule",
     "Simulated paths, impulse responses and tabulations start at the requested state and exogenous value and at every date have controls given by the rule and states given by the transition evaluated at the exogenous values of the right dates; auxiliary columns are those of the same date. The exogenous path is the one supplied, or is drawn with the requested random seed, and indexed exogenous states are never mixed up even if their values coincide.",
     "all rules, transitions, initial values, random draws", "tests only run simulations of fixed models",
     [SI], [("simulate, response, tabulate, tabulate_2d, find_index", SI)], "2..3 dates, 1..2 simulations, 1..2 states, 2 exogenous nodes.", over=("inputs", "histories"))
prop("P21", "Ergodic distributions keep mass and mean and are invariant",
     "Spreading a point over the neighbouring grid points gives nonnegative weights that sum to one and have that point (moved to the nearest bound when outside) as their mean. The transition operator over exogenous and endogenous grids has probability rows, with the exogenous law of the process and the expected future state given by the transition and the rule, and the reported ergodic distribution is invariant under that operator with total mass one.",
     "all grid bounds, transitions, rules, probabilities", "one test of one model with fixed parameters",
     [ER], [("trembling_hand, ergodic_distribution", ER)], "1..2 states with 2..3 points, 1..3 exogenous nodes.")
prop("P22", "Value iteration and policy evaluation iterate on the Bellman operators",
     "For arbitrary model functions, transition laws and rules, the value update at each exogenous node and state is the felicity or recursive value with the expectation of tomorrow's value under the law of tomorrow's exogenous state, and the value of a candidate control is computed with the same law. Policy evaluation and value iteration iterate on that operator with the bounds of each state, starting from the given guess, and report the true errors, iterations and convergence.",
     "all model functions, values, rules, probabilities", "tests run two models and look at nothing but termination",
     [VI], [("update_value, choice_value, evaluate_policy, value_iteration", VI)], "2 exogenous nodes, 2..3 grid points, at most 2 iterations.", over=("inputs", "histories"))
prop("P23", "First-order perturbation solves the linearised model on the saddle path",
     "For all coefficients of linearised equations, the perturbation rule has the steady state as fixed point and its slopes with respect to states and exogenous variables satisfy the linearised transition and optimality conditions given the law of the exogenous process. Generalised eigenvalues are ordered by modulus, and the number of stable ones is compared to the number of states so that existence and uniqueness warnings and flags are raised exactly when they should be.",
     "all coefficients of the linear model", "tests perturb fixed calibrated models",
     [PT, LM], [("perturb, get_derivatives, approximate_1st_order", PT), ("qzordered", LM)], "1..2 states, controls and exogenous variables; the Schur decomposition is replaced by its defining equations.")
CM = "dolo/compiler/model.py"; FA = "dolo/compiler/factories.py"
prop("P24", "Compiled model functions evaluate the equations of the model file",
     "For every model file and all values of its symbols, each compiled function (optimality conditions, transitions, values, rewards, expectations, endogenous grid equations, auxiliaries) takes the documented groups of variables at the documented dates and returns the value of the equations as written, with definitions substituted at the date at which they appear. Bounds of controls are those written next to the equations (infinite if none), evaluation of many points equals evaluation point by point, and declarations that do not match the equations are refused.",
     "all values of all symbols and parameters, for each model file of the check", "tests import a few models and compare functions with nothing",
     [CM, FA, "dolo/compiler/recipes.yaml"], [("SymbolicModel.equations, definitions, Model.functions, x_bounds", CM), ("get_factory, shift_spec, reorder_preamble", FA)], "9 model files covering every equation type and both syntaxes; batches of 2..3 points.", over=("inputs", "programs"))
prop("P25", "Model data are the expressions of the file at the current calibration",
     "For all calibrated values, each symbol of a model has the value of its expression or definition (missing ones none, exogenous ones zero) whether it is read by group, by name or by tuple, and the domain, grids and exogenous processes are those of the file evaluated at that calibration, attached to the right states and shocks whatever the order in which they are listed. After the calibration is changed everything that depends on the changed values is updated and calibrations obtained earlier stay as they were.",
     "all calibrated values, for each model file of the check", "tests import models at their stored calibration",
     [CM, "dolo/compiler/misc.py", "dolo/compiler/objects.py"], [("SymbolicModel.get_calibration/get_domain/get_grid/get_exogenous, Model.set_calibration", CM), ("CalibrationDict", "dolo/compiler/misc.py"), ("CartesianDomain", "dolo/compiler/objects.py")], "model files covering every kind of grid and process; sequences of calibration changes.", over=("inputs", "histories"))
prop("P26", "Rules written as formulas or Taylor expansions give the values of the formulas",
     "A decision rule written as formulas gives at every exogenous value, state and calibration the values of these formulas, each under the control it is written for, whatever the order of the formulas and of intermediate symbols. A Taylor expansion of any order evaluates to the polynomial with its coefficients around its point, a constant rule to its constants, and evaluation of many points is evaluation point by point.",
     "all points, coefficients and calibrated values", "the tests evaluate one formula rule and one expansion",
     [DR, "dolo/numeric/taylor_expansion.py"], [("CustomDR, ConstantDecisionRule", DR), ("TaylorExpansion", "dolo/numeric/taylor_expansion.py")], "a fixed set of formulas; order 1..3, 1..3 states, 1..2 controls, 1..3 points.")
prop("P27", "Formulas on simulated tables read the right dates",
     "A formula evaluated on a table of simulated variables gives at every row its value with variables read at the date they are written with (leads and lags, both syntaxes, undated columns at the current date) and missing values where the table ends; symbols that are not columns take their calibrated values. Evaluation leaves the table and the calibration as they were and refuses unknown symbols.",
     "all tables, calibrations, for each formula of the check", "the test only checks that evaluation runs",
     ["dolo/compiler/eval_formula.py", CM], [("eval_formula", "dolo/compiler/eval_formula.py"), ("Model.eval_formula", CM)], "8 formulas, 3..6 rows.")
prop("P28", "Filters separate trend, cycle and frequencies as documented",
     "For every series and smoothing parameter, the HP trend satisfies the first-order conditions of its documented minimisation problem and the cycle is the remainder, also when several series are filtered together. The band-pass filter is the symmetric moving average with the weights of the ideal filter corrected to sum to zero, so linear trends are removed.",
     "all series, smoothing parameters and bands", "filters have no test",
     ["dolo/numeric/filters.py"], [("hp_filter, bandpass_filter", "dolo/numeric/filters.py")], "4..9 observations, 1..5 series, order 1..3.")
prop("P29", "Cached functions always return the value for the arguments of the call",
     "Whatever the sequence of calls, and whatever coincidences of hashes there are between arguments, a cached function (in memory, on disk or as a dictionary on disk) returns the value for the arguments of that call and evaluates the function once for equal arguments. Methods of different objects and functions of different names share no values, and exceptions reach the caller without being cached.",
     "all equality and hash patterns of arguments", "the test makes the same call twice",
     ["dolo/misc/caching.py"], [("memoized, cachedondisk, DiskDictionary, hashable", "dolo/misc/caching.py")], "3..4 calls, 1..2 arguments, integers and arrays.", over=("inputs", "histories"))
prop("P30", "Complementarity solver only returns points that solve the problem",
     "Whatever the residual function, its derivatives and the answers of the linear algebra library, the solver for big mixed complementarity problems only returns a point when the reformulated problem evaluated at that very point is below the tolerance; otherwise it raises. It starts from the guess moved inside the bounds, its preprocessing steps stay inside the bounds, and it leaves the caller's guess and bounds unchanged.",
     "all residual functions, bounds and guesses", "the tests solve two fixed problems",
     ["dolo/numeric/extern/lmmcp.py"], [("lmmcp", "dolo/numeric/extern/lmmcp.py")], "1..2 unknowns, 2..3 iterations, 1 back-step.")
prop("P31", "Computations leave their arguments and earlier results unchanged",
     "Whatever their values, arrays, lists, calibrations, processes, grids, decision rules, models and tables given to a computation hold the same values after it as before, except where modification in place is its documented purpose. Results handed out earlier are not altered by later computations, and asking a process, grid, rule or numerical routine the same question again gives the same answer.",
     "all values of the arguments of the calls made by the harnesses of the other checks", "tests do not look at arguments after a call, nor at results after another call",
     [PR, DI, DR, VI, SI, TIF, "dolo/compiler/misc.py", "dolo/compiler/model.py"], [("every public function and method called by a harness", "dolo/"), ("evaluate_policy initial guess", VI), ("CalibrationDict", "dolo/compiler/misc.py")],
     "the calls of two configurations of every harness of the other checks (all configurations in thorough).", over=("inputs", "histories"))
na("N01", "Solution methods converge on well-posed models",
   "For every model with a unique stable solution and a sufficiently fine grid, each global solution method, the complementarity solver and the eigenvalue routines end in finitely many iterations at that solution.",
   "all models", "tests run a handful of calibrated models", [TIF, "dolo/numeric/extern/lmmcp.py", LM], [("time_iteration", TIF), ("lmmcp", "dolo/numeric/extern/lmmcp.py")],
   "Convergence is a statement about unboundedly many iterations of nonlinear maps and about LAPACK and scipy code, which no bounded symbolic execution decides; what one iteration solves and what is reported about convergence is decided in P15, P16, P18, P19, P22 and P23.")
na("N02", "Smooth interpolation between grid points is accurate",
   "Cubic spline and Smolyak decision rules approximate every smooth function between grid points within the known approximation bounds.",
   "all smooth functions", "tests compare a few points", [DR, GR], [("DecisionRule, SmolyakGrid", DR)],
   "Splines and Smolyak polynomials are computed by the external interpolation library, whose source is not part of this repository; approximation bounds for all smooth functions are beyond quantifier-free queries. Nodal values and linear rules are decided in P13.")
na("N03", "Results are insensitive to rounding",
   "For every input, results computed in double precision are within a small relative distance of the exact ones.",
   "all inputs", "tests use absolute tolerances on few inputs", [PR, NW], [("newton", NW), ("rouwenhorst", DI)],
   "Bit-precise floating point encodings of these loops (recursions, eliminations, powers, transcendental functions) are far out of reach of SMT floating point solvers at any useful size; all other properties are decided over exact reals.")
na("N04", "Caches on disk survive concurrent processes",
   "Processes that share a cache directory never read a value that was partly written by another one.",
   "all interleavings of processes", "tests use one process", ["dolo/misc/caching.py"], [("cachedondisk, DiskDictionary", "dolo/misc/caching.py")],
   "The interleavings are those of operating system file operations and of pickle (C code), which this executor does not encode; a model of them would not be the real code.", over=("schedules",))
