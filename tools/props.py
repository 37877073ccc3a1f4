TECHNIQUE = "explicit enumeration of operation/input sequences on the real code (stateless model checking) against a reference model"
NOTES = "Every check imports /repo's working tree in a fresh process with fresh caches; see DESIGN.md."
NOT_APPLICABLE = []
PROPS = []


def P(**k):
    PROPS.append(k)


P(
    id="C01",
    title="Calibration changes take full effect whatever was read or set before",
    statement="""After any sequence of calibration changes on a model (keyword or dictionary form, numbers or
expressions) interleaved with reads of derived quantities, the calibration, every group of calibrated values, the domain,
the exogenous process, the grid and the compiled functions are those of the final calibration, exactly as if the model
file had been written with these values. Changing one model never affects another one.""",
    over=["histories", "inputs"],
    quant="""all sequences of set_calibration calls on any symbols (parameters, states, exogenous, keys read only by the
domain or by the shock, keys absent from the file), interleaved with any reads""",
    why="""Tests call set_calibration once, on one parameter, and read one value; stale or partial invalidation shows only in
particular histories of reads and changes.""",
    files=["dolo/compiler/model.py", "dolo/compiler/misc.py"],
    mechanism=[("set_calibration", "dolo/compiler/model.py"), ("CalibrationDict, set_entry", "dolo/compiler/misc.py"),
               ("lazy domain/exogenous/grid", "dolo/compiler/model.py")],
    observe=["Model.calibration", "Model.get_calibration", "Model.domain", "Model.exogenous", "Model.discretize", "Model.functions"],
    note="""Exhaustive over sequences of up to 2 (quick) or 3 (thorough) operations from menus of changes and reads on a model
whose every derived quantity depends on the calibration; the numba backend of dolang is replaced by numpy execution
of the same generated code except in a scenario that keeps it.""",
)
P(
    id="C02",
    title="Calibration is the solution of its expressions, whatever their order",
    statement="""The calibrated values of a model are the values obtained by evaluating its calibration and definition
expressions with every reference resolved, independently of the order in which they are written, and each group of values
is listed in the order in which its symbols are declared. Symbols without any value get the documented defaults, and circular
calibrations are refused instead of producing numbers.""",
    over=["inputs", "programs"],
    quant="all dependency graphs between calibrated symbols, all writing orders, all declaration orders",
    why="Tests import a few files written in an order that works and never compare values to an independent evaluation.",
    files=["dolo/compiler/model.py", "dolo/compiler/misc.py", "dolo/compiler/factories.py"],
    mechanism=[("triangular resolution of calibration", "dolo/compiler/model.py:calibration"), ("calibration_to_vector", "dolo/compiler/misc.py")],
    observe=["Model.calibration", "Model.calibration_dict", "Model.get_calibration"],
    note="""Exhaustive over all dependency graphs on 3 symbols (4 in the thorough tier) and all orders of 4-symbol acyclic
calibrations, with the values computed by an independent recursive evaluator.""",
)
P(
    id="C03",
    title="Compiled model functions compute what the equations say",
    statement="""For every block of equations of a model and every admissible symbol and date in it, the compiled function
returns, at every point and elementwise over any number of points, the values of the written expressions (right-hand side
minus left-hand side or the assigned value, definitions substituted at the date they are used), in the order of the equations, and its requested derivatives are the
derivatives of these values. Complementarity bounds are those written for each control, infinite when absent.""",
    over=["programs", "inputs"],
    quant="all equation blocks, all pairs of dated symbols in an equation, all equation positions, scalar and vectorised calls",
    why="Tests compile the example models only and check that functions run, not which argument each symbol reads.",
    files=["dolo/compiler/factories.py", "dolo/compiler/model.py", "dolo/compiler/recipes.py", "dolo/compiler/recipes.yaml"],
    mechanism=[("get_factory", "dolo/compiler/factories.py"), ("recipes", "dolo/compiler/recipes.yaml"), ("compile_functions", "dolo/compiler/model.py:functions")],
    observe=["Model.functions", "Model.x_bounds"],
    note="""Exhaustive over all pairs of admissible (symbol, date) tokens per block in every equation slot for a menu of
expression shapes, evaluated at several points by an evaluator that never sees the text; a subset is compiled by numba.""",
)
P(
    id="C04",
    title="Models which break the rules of the language are refused on import",
    statement="""A model file is refused with an error when it is imported if it uses, in a block of equations, a definition or a
complementarity bound, a symbol which is not declared or not admitted there at that date, declares a symbol twice, defines
a declared symbol or uses a definition before it is written, has a block whose equations do not define its variables
in declaration order, an arbitrage block without exactly one equation per control or whose complementarity conditions are
not on the controls in order, shocks which do not follow the declaration order or have the wrong dimension, bounds
for some of the states only, or a circular calibration. A model which follows these rules is accepted.""",
    over=["programs"],
    quant="all model files obtained by changing one feature (thorough: two symbols) of an admissible file, over all positions and symbols",
    why="Tests only import correct files; a model whose equations were silently paired with the wrong variables solves without any error.",
    files=["dolo/compiler/model.py", "dolo/compiler/factories.py", "dolo/compiler/recipes.yaml"],
    mechanism=[("equations, definitions, get_exogenous, get_domain", "dolo/compiler/model.py"), ("get_factory, check_assignments", "dolo/compiler/factories.py"),
               ("admissible symbols of each block", "dolo/compiler/recipes.yaml")],
    observe=["yaml_import", "Model.__init__"],
    note="""Programs come from a generator which knows the rules of the documentation and decides admissibility itself; exhaustive
over all symbols, dates -2..2, positions, sequences of up to 3 left-hand sides, complementarity conditions, partitions of 3
shocks. Most programs run with a numpy back-end that refuses the names numba refuses; a part goes through numba.""",
)
P(
    id="C05",
    title="Grids: bounds follow their states, nodes are the product of the axes",
    statement="""The domain of a model gives to each state the bounds written for that state by name, whatever the order of the
declarations, and the grids built on it span exactly these bounds with the requested number of points. Nodes of a cartesian grid are the product of
its axes with the last axis varying fastest, and sums and products of grids combine the axes of both operands.""",
    over=["inputs", "programs"],
    quant="all declaration orders of states and bounds, all small sizes of axes, all pairs of grids of the same kind",
    why="Tests build one grid per kind with symmetric sizes, for which transposed axes or swapped bounds go unnoticed.",
    files=["dolo/numeric/grids.py", "dolo/compiler/model.py", "dolo/compiler/objects.py"],
    mechanism=[("get_domain", "dolo/compiler/model.py"), ("CartesianGrid classes, cat_grids", "dolo/numeric/grids.py")],
    observe=["Model.domain", "Model.discretize", "Grid.nodes", "Grid.node", "Grid.n_nodes"],
    note="""Exhaustive over orders of declaration for up to three states and over axis sizes up to 3 in up to 3 dimensions for
each kind of grid and combination.""",
)
P(
    id="C06",
    title="Formulas over a simulated table read the dates they name",
    statement="""When a formula is evaluated over a table of simulated series, `v(k)` and `v[t+k]` (k nonzero in the second form) stand for
the value of column v k rows later, and undated names for the calibrated parameters. Rows for which some needed row does not exist are
missing values, all others are exact, the result keeps the index of the table, and the table is left as it was.""",
    over=["inputs", "programs"],
    quant="all pairs of dated columns with shifts -2..2 in a menu of expression shapes, all table lengths up to a bound",
    why="Tests evaluate one formula and only check that it runs.",
    files=["dolo/compiler/eval_formula.py", "dolo/compiler/model.py"],
    mechanism=[("eval_formula", "dolo/compiler/eval_formula.py")],
    observe=["dolo.compiler.eval_formula.eval_formula", "Model.eval_formula"],
    note="Exhaustive over shapes, symbols, shifts and table lengths in stated menus; values recomputed row by row.",
)
P(
    id="C07",
    title="Discretized i.i.d. shocks reproduce the law they come from",
    statement="""Discretizing a distribution of an exogenous shock gives points and weights that represent this distribution. Gauss-Hermite
nodes of a (multi)normal law reproduce its moments exactly up to the degree that their number allows, mean and covariance included;
equiprobable points are the requested number of equally likely quantiles. The options given by the user are honoured whether the
result is asked as an i.i.d. shock or as a markov chain (whose rows are then all equal to the weights); products and mixtures combine
points and weights of their parts; discretizing leaves the law unchanged; drawn values follow the parameters of the law.
Laws written in model files are the same as laws built in python.""",
    over=["inputs", "programs"],
    quant="all laws of the language, all parameters in stated menus, all numbers of points and options, all combinations of laws",
    why="Tests discretize a few standard laws with default options, where errors in the mean or in ignored options do not show.",
    files=["dolo/numeric/distribution.py", "dolo/numeric/discretization/quadrature.py", "dolo/numeric/processes.py"],
    mechanism=[("Distribution.discretize", "dolo/numeric/distribution.py"), ("gauss_hermite_nodes", "dolo/numeric/discretization/quadrature.py"),
               ("ProductDistribution, Mixture", "dolo/numeric/distribution.py")],
    observe=["Distribution.discretize", "Distribution.draw", "Distribution.integrate", "FiniteDistribution.points", "FiniteDistribution.weights"],
    note="Exhaustive over the stated menus of laws, parameters, sizes and options; moments are compared to closed forms.",
)
P(
    id="C08",
    title="Markov chains built from autoregressive processes keep their dynamics",
    statement="""Discretizing a VAR1 or AR1 process (σ being the standard deviation of innovations) with a scalar autocorrelation into a markov
chain with N nodes per dimension gives a proper chain that has, at every node, the conditional mean μ+ρ(m−μ), and whose stationary law has the
mean and covariance of the process. Chains of products of independent processes move independently: transition probabilities are the products and values the concatenation of those of the parts.
Processes seen as generalized discretized processes give the same nodes and weights. What cannot be discretized is refused.""",
    over=["inputs"],
    quant="all autocorrelations, covariances, means and numbers of nodes in stated menus, all products of processes",
    why="Tests discretize one process with default options, in one dimension or with a diagonal covariance.",
    files=["dolo/numeric/processes.py", "dolo/numeric/discretization/discretization.py"],
    mechanism=[("VAR1.discretize_mc", "dolo/numeric/processes.py"), ("multidimensional_discretization, rouwenhorst, tensor_markov", "dolo/numeric/discretization/discretization.py")],
    observe=["VAR1.discretize", "AR1.discretize", "ProductProcess.discretize", "MarkovChain.node", "MarkovChain.inode", "MarkovChain.iweight"],
    note="Exhaustive over menus of parameters, up to 3 dimensions and up to 7 nodes; stationary laws by exact linear algebra.",
)
P(
    id="C09",
    title="Simulated exogenous paths obey the law of motion of the process",
    statement="""Simulated paths of exogenous processes have T dates, N draws and one column per variable; they start from the given initial value or state,
and follow the law of motion of the process: autoregressive ones revert to their mean at the rate of their autocorrelation with innovations scaled by
their standard deviation, markov chains jump with the probabilities of their rows (never where it is zero), and products move component by component.
The same numpy seed gives the same paths, and paths asked without innovations have none. Responses are tables of T+1 dates with the impulse at date 1.""",
    over=["inputs", "histories"],
    quant="all processes in stated menus, all lengths, numbers of draws and initial values, all deterministic jump maps",
    why="Tests check the shape of one simulation.",
    files=["dolo/numeric/processes.py", "dolo/numeric/distribution.py"],
    mechanism=[("simulate, response", "dolo/numeric/processes.py"), ("choice, simulate_markov_chain", "dolo/numeric/processes.py")],
    observe=["Process.simulate", "Process.response", "dolo.numeric.processes.simulate_markov_chain"],
    note="""Exhaustive over menus of parameters and all maps of up to 4 (5) states to themselves; random paths are decided by exact relations between paths of one seed.""",
)
P(
    id="C10",
    title="Simulated variables satisfy the model equations at every date",
    statement="""In every table returned by simulate or response, for every date and draw, controls are the decision rule at the exogenous values and
states of that row, the states of the next row are the transition equation applied to both rows, definitions hold, and exogenous columns are the values (or the
values of the indices) given by the user when there are some, or else a path of the process. Simulations start from the given initial conditions, the same seed gives the same
table whatever was drawn before, and nothing that was given (model, rule, arrays) is changed. Responses have the impulse (by default one standard deviation) at date 1 of
a path that starts from calibrated values.""",
    over=["inputs", "histories"],
    quant="all kinds of shocks, decision rules, sizes, seeds, initial conditions and driving paths in stated menus, all index paths up to a length",
    why="Tests only check that simulations run; a shift in the dating of one argument leaves plausible tables.",
    files=["dolo/algos/simulations.py", "dolo/numeric/processes.py"],
    mechanism=[("simulate, response", "dolo/algos/simulations.py")],
    observe=["dolo.simulate", "dolo.response"],
    note="""Exhaustive over the menus (9 kinds of shocks x rules x sizes x options; all index paths of length 3 for two draws); each row is recomputed from the equations;
one scenario uses the example models compiled by numba.""",
)
P(
    id="C11",
    title="Decision rules interpolate the values they are given however called",
    statement="""A decision rule built on grids returns the given values at the nodes and their multilinear interpolation, or natural cubic spline, at any point inside
the grid, for each control and each exogenous state, whatever the kind of grids and number of dimensions. All ways to call it agree: one point or many, exogenous
index or exogenous values, one exogenous value for many states, current or next exogenous node. Custom rules compute their expressions with the calibrated parameters, in any writing
order, and constant rules return their value.""",
    over=["inputs", "programs"],
    quant="all combinations of exogenous and endogenous grids, sizes, methods and calling conventions in stated menus",
    why="Tests use one grid with one control, where transposed or mixed values cannot be seen.",
    files=["dolo/numeric/decision_rule.py", "dolo/numeric/grids.py"],
    mechanism=[("DecisionRule and its multimethods", "dolo/numeric/decision_rule.py"), ("CustomDR, ConstantDecisionRule, CallableDecisionRule", "dolo/numeric/decision_rule.py")],
    observe=["DecisionRule.__call__", "DecisionRule.eval_is", "DecisionRule.eval_ms", "DecisionRule.eval_s", "DecisionRule.eval_ijs", "DecisionRule.set_values", "CustomDR.__call__"],
    note="Exhaustive over the menus, up to 3 (4) dimensions; interpolation recomputed by an independent implementation (scipy natural splines, products of segments).",
)
P(
    id="C12",
    title="Perturbation returns the stable solution of the linearized model",
    statement="""perturb returns the decision rule that solves the equations of the model linearized at the steady state with the most stable eigenvalues, for i.i.d., AR1 and VAR1
shocks, and says truthfully whether it is stable, determined and unique; when Blanchard-Kahn conditions are not met it warns or raises instead of returning silently some solution.
The steady state is the calibrated, given or solved one, as requested. The rule, and Taylor expansions up to the third order, evaluate the polynomial they stand for, for one or many points.""",
    over=["inputs"],
    quant="all linear models with coefficients in stated menus, up to two states, controls and shocks",
    why="The test suite does not run perturbation at all.",
    files=["dolo/algos/perturbation.py", "dolo/numeric/extern/qz.py", "dolo/numeric/taylor_expansion.py"],
    mechanism=[("get_derivatives, approximate_1st_order, perturb", "dolo/algos/perturbation.py"), ("qzordered", "dolo/numeric/extern/qz.py")],
    observe=["dolo.perturb", "PerturbationResult", "BivariateTaylor.__call__", "TaylorExpansion.__call__"],
    note="""Exhaustive over the menus of coefficients (10000 models); the reference solution comes from the eigenvectors of the pencil. Derivatives being computed by
finite differences, eigenvalues closer than 1e-3 to a tie or to one are not judged.""",
)
P(
    id="C25",
    title="Tabulated and plotted decision rules are values of the rule",
    statement="""tabulate returns one row per requested point: the tabulated state equally spaced between the given bounds (by default those of the grid or of the domain), other states at the given or
calibrated values, exogenous variables at the requested node or value, and the controls and definitions that correspond to these columns. tabulate_2d does the same over two states with its two
axes in the requested order, and plotted lines are columns of the table. Nothing that was given is changed.""",
    over=["inputs"],
    quant="all kinds of shocks and rules, states, bounds, sizes, initial values and nodes in stated menus",
    why="There is no test of these functions.",
    files=["dolo/algos/simulations.py"],
    mechanism=[("tabulate, tabulate_2d, plot_decision_rule", "dolo/algos/simulations.py")],
    observe=["dolo.tabulate", "dolo.algos.simulations.tabulate_2d", "dolo.plot_decision_rule"],
    note="Exhaustive over the menus; every row is recomputed from its own columns.",
)
P(
    id="C13",
    title="Transition matrices and ergodic distributions follow the solved model",
    statement="""The matrix computed by ergodic_distribution allocates the destination of each node (the transition equation at the node, the decision rule and the next shock, brought to the nearest
border when outside) to the surrounding nodes with linear weights times the probability of the shock: its rows are probabilities. The distribution is the invariant
law of that matrix, when there is only one: nonnegative, summing to one, labelled by exogenous index and state nodes. trembling_hand adds weights to what is already there.""",
    over=["inputs"],
    quant="all models of a family (shocks, order and number of states, persistence), grids and points in stated menus",
    why="Tests check that the function runs on one model.",
    files=["dolo/algos/ergodic.py"],
    mechanism=[("ergodic_distribution, trembling_hand", "dolo/algos/ergodic.py")],
    observe=["dolo.algos.ergodic.ergodic_distribution", "dolo.algos.ergodic.trembling_hand"],
    note="Exhaustive over the menus (about 3000 models and grids); every entry of the matrix is recomputed by an independent allocation.",
)
P(
    id="C14",
    title="Newton and complementarity solvers do not return non-solutions silently",
    statement="""newton, ncpsolve and lmmcp either return a solution, warn that they did not converge, or raise an error. A solution of a complementarity problem is within the bounds, with the function
equal to zero inside, nonnegative at the lower bound and nonpositive at the upper bound; bounds may be infinite. Formats of jacobians (serial, full, sparse) give the same solutions, problems solved at the same time
do not disturb each other, smooth monotone problems are solved, and arguments are left unchanged.""",
    over=["inputs"],
    quant="all problems of families with known solutions, bounds, starting points and jacobian formats in stated menus",
    why="Tests solve one problem whose result is printed, not checked.",
    files=["dolo/numeric/optimize/newton.py", "dolo/numeric/optimize/ncpsolve.py", "dolo/numeric/extern/lmmcp.py"],
    mechanism=[("newton", "dolo/numeric/optimize/newton.py"), ("ncpsolve, smooth", "dolo/numeric/optimize/ncpsolve.py"), ("lmmcp", "dolo/numeric/extern/lmmcp.py")],
    observe=["dolo.numeric.optimize.newton.newton", "dolo.numeric.optimize.ncpsolve.ncpsolve", "dolo.numeric.extern.lmmcp.lmmcp"],
    note="Exhaustive over the menus (80000 problems; 370000 in thorough); solutions by enumeration of the sets of binding constraints, or by closed forms. Functions are defined everywhere, except in the scenario about failures.",
)
P(
    id="C15",
    title="Batched linear algebra, derivatives, tensors and filters match their formulas",
    statement="""Solvers for batches of small systems (serial_solve, with diagnosis of the failing point or not, solve_gu, invert_gu, solve_tensor, mult_AB) give the solution of each system for any
invertible matrices, any number of right hand sides and any numeric type, without changing arguments of serial_solve. Batched products, tensor products, generalized Sylvester and second order matrix equations, numerical derivatives, Hodrick-Prescott and
band-pass filters and cartesian products return what their definitions say.""",
    over=["inputs"],
    quant="all matrices up to 3x3 with entries in stated menus; all sizes and values in stated menus for the other functions",
    why="There is almost no test of these functions.",
    files=["dolo/algos/invert.py", "dolo/numeric/serial_operations.py", "dolo/numeric/optimize/newton.py", "dolo/numeric/tensor.py", "dolo/numeric/matrix_equations.py", "dolo/numeric/filters.py", "dolo/numeric/misc.py"],
    mechanism=[("invert, solve_gu, solve_tensor", "dolo/algos/invert.py"), ("serial_solve, numdiff1, numdiff2", "dolo/numeric/serial_operations.py"), ("mdot, sdot", "dolo/numeric/tensor.py"), ("hp_filter, bandpass_filter", "dolo/numeric/filters.py")],
    observe=["dolo.numeric.serial_operations.serial_solve", "dolo.algos.invert.solve_gu", "dolo.numeric.tensor.mdot", "dolo.numeric.matrix_equations.solve_sylvester", "dolo.numeric.filters.hp_filter", "dolo.numeric.misc.cartesian"],
    note="Exhaustive over the menus: 30000 3x3 systems per routine in quick, 260000 in thorough; compared with LAPACK and direct sums.",
)
P(
    id="C16",
    title="Time iteration: each step and its limit satisfy the model's equations",
    statement="""Each iterate of time_iteration solves, at every exogenous node and grid point, the arbitrage equations in which next period's controls are given by the previous iterate, within the
bounds of the controls (complementarity when they bind). When it reports convergence the rule solves the equations at the nodes; otherwise it does not report it. Linear models recover their closed form. The options (initial
rule, given discretized process, ignored constraints, trace, hook, details, verbosity, number of iterations) do what they say and leave the model and initial rule unchanged.""",
    over=["inputs", "histories"],
    quant="all linear models of a family (shocks, number of states and controls, bounds), interpolation methods, options and numbers of iterations in stated menus",
    why="Tests check that the algorithm runs on example models, without looking at the solution.",
    files=["dolo/algos/time_iteration.py", "dolo/numeric/optimize/newton.py", "dolo/numeric/decision_rule.py", "dolo/numeric/optimize/ncpsolve.py"],
    mechanism=[("time_iteration, residuals_simple", "dolo/algos/time_iteration.py")],
    observe=["dolo.time_iteration", "TimeIterationResult"],
    note="Exhaustive over the menus; each step is recomputed from the written equations with an independent interpolation.",
)
P(
    id="C17",
    title="Improved time iteration returns the same solution as time iteration",
    statement="""improved_time_iteration, with any of its inversion methods, with or without steps of complementarity, returns a rule which solves the equations of the model within its bounds at every node, and says that
it converged only if it does. It works for models without bounds and with a given discretized process; the reported radius is the contraction rate of time iteration at the solution; the initial rule and the model are left unchanged.""",
    over=["inputs"],
    quant="all linear models of a family (shocks, number of states and controls, bounds), interpolation methods and options in stated menus, and example models",
    why="Tests only check that the algorithm runs.",
    files=["dolo/algos/improved_time_iteration.py", "dolo/algos/invert.py"],
    mechanism=[("improved_time_iteration, radius_jac", "dolo/algos/improved_time_iteration.py"), ("invert_jac", "dolo/algos/invert.py")],
    observe=["dolo.improved_time_iteration", "ImprovedTimeIterationResult"],
    note="Exhaustive over the menus; closed forms, equations recomputed independently and comparison with time_iteration.",
)
P(
    id="C18",
    title="Policy evaluation and value iteration satisfy the value equation",
    statement="""evaluate_policy returns the function which satisfies the value equation at every node, given the rule, after at most maxit iterations, leaving the rule and the initial guess unchanged, with or
without details. value_iteration returns the rule that maximizes felicity plus the discounted continuation value within the bounds of the controls, when there are some, and the value of that rule.""",
    over=["inputs"],
    quant="all models of a family (shocks, number of states and controls, bounds, discount factor), interpolation methods and starting points in stated menus",
    why="Tests only check that the algorithms run on one model.",
    files=["dolo/algos/value_iteration.py"],
    mechanism=[("evaluate_policy, update_value, value_iteration, choice_value", "dolo/algos/value_iteration.py")],
    observe=["dolo.algos.value_iteration.evaluate_policy", "dolo.value_iteration"],
    note="Exhaustive over the menus; closed forms and the value equation recomputed with an independent interpolation.",
)
P(
    id="C19",
    title="Endogenous grid points: each step and its limit satisfy the equations",
    statement="""After k iterations the rule returned by egm is the one obtained from the initial rule by k backward steps: expectations of next period's rule at the post-states, direct response, states by reverse
transition, then linear interpolation between endogenous points within the bounds of the controls, at all exogenous nodes. Convergence is reported only when two successive iterates are close. Models without bounds solve the Euler equation; problems with a closed
form recover it. Given grids, processes and initial rules are used and left unchanged, nothing is printed unless asked.""",
    over=["inputs", "histories"],
    quant="all models of three families (linear, savings, taste shocks), Markov chain, iid and constant shocks, bounds, grids of post-states, initial rules and numbers of iterations in stated menus",
    why="The only test runs one model without looking at the result.",
    files=["dolo/algos/egm.py"],
    mechanism=[("egm", "dolo/algos/egm.py")],
    observe=["dolo.algos.egm.egm", "EGMResult"],
    note="Exhaustive over the menus (12000 runs); each iterate is recomputed from the written equations with an independent interpolation.",
)
P(
    id="C20",
    title="Perfect foresight paths satisfy the equations at every date",
    statement="""A path returned by deterministic_solve without a warning starts from the given initial state (by default the steady state of the first value of the shocks, or the calibration), follows the given exogenous path
(arrays, lists, dictionaries, dataframes; last values prolonged), and satisfies transition and arbitrage equations at each date, within the bounds of the controls (complementarity) unless they are ignored; controls are constant at the last date. Definitions, dates and columns correspond. The
result depends neither on the solver nor on the initial guess when the solution is unique. Bounds which are not constant and unknown names of initial values are refused.""",
    over=["inputs"],
    quant="all models of a family (up to two states, controls and shocks; linear or not), paths, formats, horizons, initial states, bounds, guesses and solvers in stated menus",
    why="No test runs this function.",
    files=["dolo/algos/perfect_foresight.py"],
    mechanism=[("deterministic_solve, _shocks_to_epsilons, det_residual", "dolo/algos/perfect_foresight.py")],
    observe=["dolo.deterministic_solve"],
    note="Exhaustive over the menus (10000 paths); equations recomputed at each date, and linear paths solved independently as one linear system.",
)
P(
    id="C21",
    title="Steady states and residuals satisfy the written equations",
    statement="""model.residuals and residuals return the value of each transition and arbitrage equation at the given point (by default the calibration), and the text and html descriptions of a model show these values. A calibration returned by find_steady_state
without a warning solves all equations for the given (or calibrated) exogenous values; linear models, which have only one steady state, find it. The model and the arguments are left unchanged.""",
    over=["inputs"],
    quant="all models of a family (up to two states, controls and shocks; linear or not; some without a steady state), points and starting values in stated menus",
    why="No test checks residuals or steady states.",
    files=["dolo/algos/steady_state.py", "dolo/compiler/model.py"],
    mechanism=[("residuals, find_steady_state", "dolo/algos/steady_state.py"), ("Model.__str__, Model._repr_html_", "dolo/compiler/model.py")],
    observe=["Model.residuals", "dolo.algos.steady_state.find_steady_state", "str(model)"],
    note="Exhaustive over the menus (6000 points).",
)
P(
    id="C22",
    title="Cached functions return what the bare functions return",
    statement="""Functions cached in memory (memoized) or on disk, and DiskDictionary, return what the bare function (a plain dictionary) would return, for every sequence of calls: arguments
which differ in value, shape or type never share a value, functions which share a name do not either, arguments which cannot be cached are evaluated. Repeated plain arguments are not evaluated again; exceptions are not
cached; clear_cache forgets the values of the named function only; arguments are left unchanged.""",
    over=["inputs", "histories"],
    quant="all pairs of arguments of a menu built to be confused, all sequences of calls up to depth 3 (4 in thorough), of set/get operations for dictionaries",
    why="No test runs the caches; errors need two calls with specific arguments.",
    files=["dolo/misc/caching.py"],
    mechanism=[("memoized, cachedondisk, hashable, DiskDictionary, clear_cache", "dolo/misc/caching.py")],
    observe=["dolo.misc.caching.memoized", "dolo.misc.caching.cachedondisk", "dolo.misc.caching.DiskDictionary"],
    note="Exhaustive over sequences of calls on the real code; the reference is the bare function, or a plain dictionary.",
)
P(
    id="C23",
    title="The cache on disk survives crashes, torn files and concurrent use",
    statement="""A value cached on disk is the right one or is not there: after a crash of the writer at any byte or file operation, for files which are truncated or whose tail was lost, and for concurrent callers under any
interleaving of their file operations, later calls return the value of the bare function without an error, and DiskDictionary returns a value which was stored for the key, or nothing.""",
    over=["crash_points", "schedules", "histories"],
    quant="all crash points (each byte written, each file operation) of all histories of a menu, all truncations of the files, all interleavings of two or three callers up to a preemption bound",
    why="Needs a crash or a schedule at a particular point: tests cannot reach it.",
    files=["dolo/misc/caching.py"],
    mechanism=[("cachedondisk, DiskDictionary", "dolo/misc/caching.py")],
    observe=["dolo.misc.caching.cachedondisk", "dolo.misc.caching.DiskDictionary"],
    note="Stateless exploration of the real code under a fault injector (child processes killed at each point) and a controlled scheduler of threads.",
)
P(
    id="C24",
    title="Multiple dispatch picks the most specific applicable method",
    statement="""A multimethod calls the applicable method whose signature is most specific (no other applicable one refines it; then the leftmost argument closest in the method resolution order), whatever the order and the way methods were registered,
before and after registrations, replacements and removals, with the given arguments; when there is none, or no single one, it raises DispatchError. So do methods of classes, annotations that are forward references, generic types or unions,
overloaded functions with predicates, and classes of metaclass multimeta.""",
    over=["inputs", "histories"],
    quant="all sets of up to 3 (5 in thorough) signatures over a hierarchy with multiple inheritance, all orders and three ways of registration, all types of one or two arguments",
    why="No test targets dispatch; errors depend on the order of registration and on previous calls.",
    files=["dolo/misc/multimethod.py"],
    mechanism=[("multimethod, signature, subtype, overload, multimeta", "dolo/misc/multimethod.py")],
    observe=["dolo.misc.multimethod.multimethod"],
    note="Exhaustive over registration histories and calls; the reference is computed from the method resolution orders.",
)
