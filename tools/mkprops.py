#!/usr/bin/env python3
"""Writes properties.jsonl. One entry per property: id, title, statement, (over, text), why, files, mechanism, observe_at."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

A = "src/Algorithm/"; I = "src/Interfaces/"; L = "src/LinAlg/"; C = "src/Common/"; S = "src/Algorithm/LinearSolvers/"

p("P01", "A reported success is a point that satisfies the requested tolerances",
  "Whenever a solve ends with Solve_Succeeded (or Solved_To_Acceptable_Level), the point and multipliers handed to the user satisfy, when recomputed from the user's own functions, the first-order optimality conditions within tol, dual_inf_tol, constr_viol_tol and compl_inf_tol (resp. their acceptable_ counterparts), the first with the documented multiplier scaling and with the documented gradient-based or user problem scaling. Variable bounds are violated by no more than the documented bound relaxation, and not at all with honor_original_bounds=yes (fixed variables turned into constraints count as constraints).",
  ["inputs", "configurations"], "all smooth NLPs (convex or not, with any mix of bounds, equalities, ranges, fixed and free variables), all tolerance settings, Hessian modes, barrier strategies, scaling methods",
  "The smoke tests solve fixed small problems with default options and look at the objective value; they never recompute the KKT residual and never reach other option settings.",
  [A+"IpOptErrorConvCheck.cpp", A+"IpIpoptCalculatedQuantities.cpp", A+"IpOrigIpoptNLP.cpp", I+"IpTNLPAdapter.cpp", A+"IpGradientScaling.cpp"],
  [("convergence test", A+"IpOptErrorConvCheck.cpp OptimalityErrorConvergenceCheck::CheckConvergence/CurrentIsAcceptable"), ("scaled error", A+"IpIpoptCalculatedQuantities.cpp curr_nlp_error")],
  ["return status, finalize_solution arguments"])

p("P02", "Termination by a limit or by the user is reported as exactly that",
  "A solve stops with Maximum_Iterations_Exceeded only after exactly max_iter iterations (never more iterations are started), with User_Requested_Stop exactly when the intermediate callback returned false and at that iteration, with Maximum_CpuTime/WallTime_Exceeded only once the limit has elapsed and within the work of one iteration after it, and with Diverging_Iterates only if some iterate component exceeds diverging_iterates_tol. The return value of the application, the status given to finalize_solution and the solve statistics (iteration count) all tell the same story.",
  ["inputs", "configurations", "histories"], "all problems x all limits (iteration, CPU, wall clock, divergence) x all stop points of the user callback, including inside the restoration phase",
  "No test sets a limit or stops a solve; the number of possible stop points is unbounded.",
  [A+"IpOptErrorConvCheck.cpp", A+"IpIpoptAlg.cpp", I+"IpIpoptApplication.cpp", I+"IpSolveStatistics.cpp", A+"IpRestoConvCheck.cpp"],
  [("limit checks", A+"IpOptErrorConvCheck.cpp CheckConvergence"), ("exception to status mapping", A+"IpIpoptAlg.cpp IpoptAlgorithm::Optimize"), ("status to return code mapping", I+"IpIpoptApplication.cpp call_optimize")],
  ["return status, finalize_solution, SolveStatistics, intermediate_callback"])

p("P03", "Infeasible or ill-posed problems get a truthful verdict, never a success",
  "A problem without any feasible point is never reported as solved or acceptable; if Infeasible_Problem_Detected is reported the returned point is (nearly) a stationary point of the constraint violation with positive violation or the bounds/constraints are provably inconsistent. Ill-posed inputs are rejected before any optimization with the specific documented status: lower bound above upper bound gives Infeasible_Problem_Detected or Invalid_Problem_Definition, more free-variable equalities than variables gives Not_Enough_Degrees_Of_Freedom, negative counts, refused problem data or contradicting or unavailable options are answered with an error status, and in all these cases no function is evaluated. With all variables fixed the constraint values decide between success and infeasibility.",
  ["inputs", "configurations"], "all problems with an infeasibility certificate (by construction) and malformed problem descriptions (dimensions, bounds, option values)",
  "No test runs an infeasible or malformed problem.",
  [I+"IpTNLPAdapter.cpp", I+"IpIpoptApplication.cpp", A+"IpIpoptAlg.cpp", A+"IpRestoConvCheck.cpp", A+"IpRestoMinC_1Nrm.cpp"],
  [("infeasibility detection", A+"IpRestoMinC_1Nrm.cpp / IpRestoConvCheck.cpp"), ("input validation", I+"IpTNLPAdapter.cpp GetSpaces, IpIpoptApplication.cpp OptimizeNLP")],
  ["return status, finalize_solution arguments"])

p("P04", "Every algorithmic configuration solves convex problems to the known optimum",
  "For strictly convex problems with a Slater point whose unique minimizer and optimal value are known by construction, every supported combination of algorithmic options (barrier strategy and oracle, line-search method, Hessian mode, scaling, bound handling, initialization, restoration settings) that reports success returns that minimizer and value within the tolerance, and the default configuration does report success.",
  ["inputs", "configurations"], "all well-conditioned strictly convex NLPs with linear equalities and convex inequalities, all starting points, all combinations of about 40 options",
  "The option space is combinatorial and the tests use essentially the defaults on three or four fixed problems.",
  [A+"IpIpoptAlg.cpp", A+"IpAlgBuilder.cpp", A+"IpFilterLSAcceptor.cpp", A+"IpAdaptiveMuUpdate.cpp", A+"IpQualityFunctionMuOracle.cpp", A+"IpBacktrackingLineSearch.cpp"],
  [("algorithm assembly", A+"IpAlgBuilder.cpp"), ("barrier update", A+"IpMonotoneMuUpdate.cpp, IpAdaptiveMuUpdate.cpp")],
  ["return status, finalize_solution arguments"])

p("P05", "User callbacks are invoked according to the documented protocol",
  "Every callback receives the dimensions the user announced, structure is requested (values NULL, at the documented index style) before values and only valid pointers are passed for the requested purpose, new_x is false only if all arguments x equal the x of the preceding evaluation call of any kind (likewise new_lambda for lambda), and no evaluation callback is called that the options declare unneeded (no eval_h in limited-memory mode, no eval_grad_f/eval_jac_g values when approximated by finite differences).",
  ["inputs", "configurations", "histories"], "all problems, all option combinations (fixed-variable treatments, finite differences, derivative test, dependency detection, restoration, warm start, repeated solves) and thus all call sequences",
  "Example problems ignore new_x and check dimensions only with assert in an -DNDEBUG build; wrong new_x flags silently corrupt users that cache.",
  [I+"IpTNLPAdapter.cpp", I+"IpStdInterfaceTNLP.cpp", A+"IpOrigIpoptNLP.cpp"],
  [("x tag bookkeeping", I+"IpTNLPAdapter.cpp update_local_x/update_local_lambda")],
  ["every TNLP callback invocation"], [("full_x_", "last x passed to the user", I+"IpTNLPAdapter.cpp")])

p("P06", "Functions are evaluated only inside the (relaxed) variable bounds",
  "Every point at which the objective, constraints or their derivatives are evaluated during a solve lies within the variable bounds relaxed by at most bound_relax_factor (capped by constr_viol_tol) and the documented slack corrections, strictly inside the relaxed bounds after initialization; fixed variables are evaluated exactly at their fixed value when removed. With bound_relax_factor=0 no evaluation leaves the original bounds. (The user's own starting point, functions that produced a non-finite value before, and fixed variables treated as constraints are not covered.)",
  ["inputs", "configurations", "histories"], "all bounded problems, starting points inside or outside of bounds, all line search, restoration, watchdog, second-order-correction and corrector histories",
  "Users rely on it for functions undefined outside bounds (log, sqrt); the tests do not monitor evaluation points.",
  [A+"IpBacktrackingLineSearch.cpp", A+"IpDefaultIterateInitializer.cpp", A+"IpOrigIpoptNLP.cpp", A+"IpIpoptCalculatedQuantities.cpp"],
  [("fraction to the boundary", A+"IpIpoptCalculatedQuantities.cpp primal_frac_to_the_bound"), ("starting point push", A+"IpDefaultIterateInitializer.cpp push_variables")],
  ["x argument of every evaluation callback"])

p("P07", "The final report is delivered once and is consistent with itself",
  "Every solve that starts optimization calls finalize_solution exactly once, and before the solve call returns; its objective and constraint values equal the user's own functions at the returned x, bound multipliers are nonnegative and zero for absent bounds, fixed variables hold their fixed value, and the same objective is obtained through statistics and the C/C++ result arguments. This holds for every termination status that hands back an iterate (honor_original_bounds projects only x; make_parameter_nodual gives no multipliers of fixed variables).",
  ["inputs", "configurations", "histories"], "all problems, all termination causes (success, limits, user stop, infeasible, evaluation errors), all scaling and bound-handling options",
  "Tests examine the report of successful default solves only.",
  [I+"IpTNLPAdapter.cpp", A+"IpOrigIpoptNLP.cpp", A+"IpIpoptAlg.cpp", I+"IpSolveStatistics.cpp", I+"IpIpoptApplication.cpp"],
  [("finalization", I+"IpTNLPAdapter.cpp FinalizeSolution; "+A+"IpOrigIpoptNLP.cpp FinalizeSolution")],
  ["finalize_solution arguments, SolveStatistics"])

p("P08", "All treatments of fixed variables describe the same problem",
  "fixed_variable_treatment make_parameter, make_parameter_nodual, make_constraint and relax_bounds yield the same solution, objective and constraint multipliers for problems with fixed variables; with all except make_parameter_nodual the returned bound multipliers of fixed variables satisfy the full first-order conditions for the original problem. With relax_bounds the fixed variables stay within the documented relaxation of their value, with make_parameter they equal it exactly and with make_constraint to the constraint tolerance.",
  ["inputs", "configurations"], "all problems with any subset of fixed variables (including none, all), all fixed-variable treatments, Hessian and derivative approximation modes, termination causes",
  "One example has a fixed variable; no test compares treatments or recomputes multipliers.",
  [I+"IpTNLPAdapter.cpp"], [("problem transformation", I+"IpTNLPAdapter.cpp GetSpaces, GetBoundsInformation, ResortX, ResortBoundMultipliers, Eval_*")],
  ["finalize_solution arguments of paired runs"])

p("P09", "The result does not depend on how the same problem is written down",
  "Writing the same problem with Fortran instead of C indexing, with sparse entries in another order or triangle, split into duplicates or padded with explicit zeros, as maximization by a negative objective scaling factor, or with permuted variables or constraints gives the same outcome: same status, and the correspondingly permuted solution and multipliers.",
  ["inputs", "configurations"], "all problems x all re-presentations (index style, order, duplicates, zeros, triangles, permutations, sign)",
  "It relates two runs; the test-suite never runs the same problem in two forms.",
  [I+"IpTNLPAdapter.cpp", L+"TMatrices/IpTripletHelper.cpp", S+"IpTripletToCSRConverter.cpp"],
  [("index mapping", I+"IpTNLPAdapter.cpp jac_idx_map_, h_idx_map_")],
  ["status and finalize_solution arguments of paired runs"])

p("P10", "Problem scaling is invisible in everything reported to the user",
  "With nlp_scaling_method none, gradient-based, equilibration-based or user-scaling (any positive variable and constraint factors, any nonzero objective factor) a convex problem has the same unscaled solution, objective, constraint values and multipliers; all values reported through finalize_solution, statistics and unscaled queries are in user units. The scaling applied by gradient-based scaling is the documented one: no scaled gradient exceeds nlp_scaling_max_gradient at the starting point except as limited by nlp_scaling_min_value, and functions that are already below it are left unscaled.",
  ["inputs", "configurations"], "all problems, scaling methods and scaling factors over many orders of magnitude",
  "Tests use the default on well-scaled problems, where most scaling factors are 1.",
  [A+"IpNLPScaling.cpp", A+"IpGradientScaling.cpp", A+"IpUserScaling.cpp", A+"IpEquilibrationScaling.cpp", A+"IpOrigIpoptNLP.cpp", L+"IpScaledMatrix.cpp", L+"IpSymScaledMatrix.cpp"],
  [("scaling and unscaling", A+"IpNLPScaling.cpp"), ("unscaled values", A+"IpOrigIpoptNLP.cpp, IpIpoptCalculatedQuantities.cpp")],
  ["finalize_solution, SolveStatistics, scaled/unscaled current-iterate queries"])

p("P11", "Warm start and re-optimization reproduce what was handed in",
  "Re-solving with warm_start_init_point=yes from the solution and multipliers of a previous solve converges to the same solution in no more iterations than documented pushing requires, and the first iterate is the user's point up to the warm_start push options; re-optimizing with the same application object, also after the bounds, functions or options changed, gives the same result as a fresh application object would.",
  ["inputs", "configurations", "histories"], "all convex problems, warm-start parameters and sequences of optimize/re-optimize/option-change calls",
  "No test uses a warm start; state left over by a previous solve needs multi-solve histories.",
  [A+"IpWarmStartIterateInitializer.cpp", I+"IpIpoptApplication.cpp", I+"IpTNLPAdapter.cpp"],
  [("warm start", A+"IpWarmStartIterateInitializer.cpp SetInitialIterates"), ("re-optimization", I+"IpIpoptApplication.cpp ReOptimizeTNLP")],
  ["iterates seen by intermediate_callback, status, finalize_solution"])

p("P12", "Failing evaluations never crash the solver or falsify its answer",
  "If user callbacks report an error, return NaN or infinite values, or throw an exception at any calls, the solve still returns with a documented status, calls finalize_solution at most once, never reports success for a point that does not satisfy the tolerances, and leaves the application usable for the next solve. Failures only at trial points of the line search are survived, and a failure at the starting point is reported as Invalid_Number_Detected.",
  ["inputs", "fault_sequences", "configurations"], "all (callback, call number, kind of failure) combinations, singly and in bursts, on all problems and configurations",
  "Tests never inject failures; the number of fault points is the number of evaluations of every possible run.",
  [A+"IpBacktrackingLineSearch.cpp", A+"IpOrigIpoptNLP.cpp", A+"IpIpoptAlg.cpp", I+"IpIpoptApplication.cpp", I+"IpTNLPAdapter.cpp"],
  [("Eval_Error exceptions", A+"IpOrigIpoptNLP.cpp"), ("step reduction after evaluation errors", A+"IpBacktrackingLineSearch.cpp")],
  ["status, finalize_solution, later solves"])

p("P13", "Solves are deterministic and isolated from each other",
  "Solving the same problem with the same options twice gives bitwise identical iterates, results and iteration counts, regardless of which other problems were solved before, of other application objects alive with other options, of nested solves inside callbacks, or of solves running concurrently in other threads.",
  ["inputs", "histories", "schedules"], "all problems and options, all interleavings of solves in several threads and application objects, all nesting points",
  "The one nested example runs a single nesting; concurrency and leftovers need histories and schedules.",
  [C+"IpTaggedObject.cpp", S+"IpMumpsSolverInterface.cpp", I+"IpIpoptApplication.cpp", C+"IpUtils.cpp"],
  [("thread-local tags", C+"IpTaggedObject.cpp"), ("MUMPS mutex", S+"IpMumpsSolverInterface.cpp")],
  ["bitwise comparison of callback traces and results"])

p("P14", "Each iteration report obeys the interior-point method's invariants",
  "At every intermediate callback the iteration counter increases by one from zero (only the last point of a finished restoration phase is reported again, in regular mode, under the same number), the barrier parameter is positive (and nonincreasing within the regular mode of the monotone strategy), step sizes lie in (0,1], slacks and bound multipliers of the current iterate are strictly positive and stay within the fraction-to-the-boundary and kappa_sigma limits, and the reported objective, constraint violation, dual infeasibility and step norm equal what is recomputed from the iterate and the user's functions.",
  ["inputs", "configurations", "histories"], "all problems and configurations, all iterations in regular and restoration mode",
  "Tests print the iteration log but compare none of it.",
  [A+"IpIpoptAlg.cpp", A+"IpMonotoneMuUpdate.cpp", A+"IpIpoptCalculatedQuantities.cpp", A+"IpBacktrackingLineSearch.cpp", A+"IpOrigIterationOutput.cpp", A+"IpRestoIterationOutput.cpp"],
  [("iteration loop", A+"IpIpoptAlg.cpp Optimize, AcceptTrialPoint"), ("output", A+"IpOrigIterationOutput.cpp WriteOutput")],
  ["intermediate_callback arguments and current iterate"])

p("P15", "Queries for the current iterate agree with the user's own evaluation",
  "During any intermediate callback get_curr_iterate and get_curr_violations return, in user units and with fixed variables in place, the x, constraint values, multipliers, bound and complementarity violations, Lagrangian gradient and constraint violation that one recomputes from the user's functions, in regular and in restoration mode and scaled or unscaled as requested; any subset of outputs may be requested and outside a solve they return false.",
  ["inputs", "configurations", "histories"], "all problems, all iterations incl. restoration, all fixed-variable treatments and scalings, all subsets of requested outputs",
  "The GetCurr smoke test checks one problem with hand-picked options.",
  [I+"IpTNLP.cpp", I+"IpTNLPAdapter.cpp", I+"IpStdInterfaceTNLP.cpp"], [("queries", I+"IpTNLP.cpp TNLP::get_curr_iterate, get_curr_violations")],
  ["TNLP::get_curr_iterate, TNLP::get_curr_violations"])

p("P16", "Statistics, output files and printed reports match what happened",
  "After every solve the statistics report exactly the iterations performed, the evaluation calls the user received and the final objective, infeasibilities, complementarity and KKT error of the returned point (scaled and unscaled); the log written to console or output_file at a given print level contains one line per iteration with those numbers and the same exit message and the final summary equals the statistics.",
  ["inputs", "configurations"], "all problems, terminations, print levels, print frequencies, output files and info-string options",
  "The tests redirect output and look at the exit code only.",
  [I+"IpSolveStatistics.cpp", A+"IpOrigIterationOutput.cpp", A+"IpRestoIterationOutput.cpp", I+"IpIpoptApplication.cpp", C+"IpJournalist.cpp"],
  [("statistics", I+"IpSolveStatistics.cpp"), ("iteration log", A+"IpOrigIterationOutput.cpp"), ("summary", I+"IpIpoptApplication.cpp call_optimize")],
  ["SolveStatistics accessors, log file text"])

p("P17", "The derivative checker flags exactly the wrong derivatives",
  "With derivative_test first-order, second-order or only-second-order the checker reports every user derivative entry whose relative error clearly exceeds derivative_test_tol, including nonzeros missing from the declared sparsity structure, reports none that is correct, and names the right function, variable and entry. It does not change the outcome of the solve that follows.",
  ["inputs", "configurations"], "all smooth problems x all sets of corrupted derivative entries (value or structure) x index styles, fixed variables, starting points inside, on and outside of bounds",
  "No test turns the derivative test on.",
  [I+"IpTNLPAdapter.cpp"], [("CheckDerivatives", I+"IpTNLPAdapter.cpp TNLPAdapter::CheckDerivatives")],
  ["journal output of the derivative checker"])

p("P18", "Finite-difference derivatives stand in for exact ones",
  "With gradient_approximation or jacobian_approximation set to finite-difference-values every derivative value used by the solver approximates the true one to finite-difference accuracy for all variables (including fixed ones under any treatment, and at bounds), the evaluations used for differences respect the variable bounds, user derivative callbacks are not called for the approximated parts, and the solve gives the same solution and multipliers as with exact derivatives to matching accuracy.",
  ["inputs", "configurations"], "all smooth problems, sparsity patterns, bounds closer than the perturbation, fixed-variable treatments, perturbation sizes",
  "No test uses finite differences.",
  [I+"IpTNLPAdapter.cpp"], [("finite differences", I+"IpTNLPAdapter.cpp Eval_grad_f, internal_eval_jac_g, initialize_findiff_jac")],
  ["internal gradient and Jacobian at each iterate, evaluation points, finalize_solution"])

p("P19", "Limited-memory Hessians satisfy the secant recursion of the observed history",
  "In limited-memory mode the Hessian approximation used at every regular (non-restoration) iteration equals the one obtained from the documented update formula (BFGS or SR1, with the chosen initialization, curvature skipping rule, memory length and reset rule) applied densely to the observed history of iterates and Lagrangian gradients, as long as the recursion is numerically well conditioned; its nonlinear-variable restriction leaves other variables untouched and with BFGS it is positive definite on the nonlinear space.",
  ["inputs", "configurations", "histories"], "all problems, all histories of steps (accepted, skipped, restart after restoration), memory lengths 0..n, update types and initializations, declared nonlinear subsets",
  "The update is history dependent; tests only check that a final objective is reached.",
  [A+"IpLimMemQuasiNewtonUpdater.cpp", L+"IpLowRankUpdateSymMatrix.cpp", L+"IpMultiVectorMatrix.cpp", L+"IpDenseGenMatrix.cpp", L+"IpDenseSymMatrix.cpp"],
  [("update", A+"IpLimMemQuasiNewtonUpdater.cpp UpdateHessian")],
  ["W of the current iterate at each intermediate callback"])

p("P20", "Built-in problem reformulations preserve solutions",
  "Solving through a reformulating wrapper gives the solution of the stated problem in the user's own variables, constraints and multipliers: replace_bounds=yes (bounds as inequality constraints) and the problem reducer (dropping chosen constraints, bounds or variables fixed) are equivalent to solving the problem that was reduced by hand.",
  ["inputs", "configurations"], "all convex problems, all subsets of dropped constraints, bounds and fixed variables",
  "No test uses either wrapper.",
  [A+"IpNLPBoundsRemover.cpp", I+"IpTNLPReducer.cpp"], [("wrappers", A+"IpNLPBoundsRemover.cpp; "+I+"IpTNLPReducer.cpp")],
  ["finalize_solution arguments of paired runs"])

p("P21", "Truthful structure hints never change the result",
  "Declaring truthfully that equality or inequality constraints are linear, the objective gradient is constant, the Hessian is constant, only some variables enter nonlinearly, or how many variables enter linearly leaves status, solution and multipliers unchanged, and causes the corresponding derivative to be evaluated only once.",
  ["inputs", "configurations"], "all problems with such structure x all subsets of truthful hints",
  "No test sets these options.",
  [A+"IpOrigIpoptNLP.cpp", I+"IpTNLPAdapter.cpp"], [("constant derivative caching", A+"IpOrigIpoptNLP.cpp; "+I+"IpTNLPAdapter.cpp")],
  ["finalize_solution arguments and call counts of paired runs"])

p("P22", "The C interface behaves exactly like the C++ interface",
  "For every problem, option setting, scaling, callback behaviour and call history a solve through the C interface performs the same callback sequence and gives bitwise the same status, solution, constraint values and multipliers as through C++; invalid creation or option arguments are refused without side effects, optional output and callback arguments may be NULL as documented, user data reaches every callback and the caller's arrays are only modified where documented.",
  ["inputs", "configurations", "histories"], "all problems, options, argument combinations (valid and invalid) and sequences of C API calls on one problem object",
  "The C smoke test makes one fixed sequence of calls.",
  [I+"IpStdCInterface.cpp", I+"IpStdCInterface.h", I+"IpStdInterfaceTNLP.cpp"], [("wrapper TNLP", I+"IpStdInterfaceTNLP.cpp"), ("C API", I+"IpStdCInterface.cpp")],
  ["C API results and callback traces"])

p("P23", "The Fortran interface behaves exactly like the C interface",
  "For every problem, options, limits and call history the Fortran entry points give bitwise the same status, results and callback sequence as the C interface, strings with trailing blanks are understood as the trimmed text, and user integer and double work arrays reach every callback unchanged.",
  ["inputs", "configurations", "histories"], "all problems, option strings with arbitrary padding, index styles and call sequences",
  "One Fortran program is run once.",
  [I+"IpStdFInterface.c"], [("wrappers", I+"IpStdFInterface.c")],
  ["Fortran-ABI entry points called from a driver"])

p("P24", "The Java interface behaves exactly like the C++ interface",
  "For every problem and options a solve through the Java class performs the same evaluations and returns the same status, objective, solution and multipliers as through C++, including warm starts, user scaling, Hessian approximation and stops from the Java callback.",
  ["inputs", "configurations"], "all problems and options expressible through the Java class",
  "The Java smoke test runs HS071 and a few fixed variants.",
  [I+"IpStdJInterface.cpp", I+"Ipopt.java"], [("JNI wrapper", I+"IpStdJInterface.cpp")],
  ["Java results versus C++ results"])

p("P26", "The AMPL interface solves the problem written in the .nl file",
  "For every .nl file, the values, derivatives, bounds, sense, starting points, and scaling or status suffixes seen by the solver are those of the file, the .sol file written back contains the primal and dual solution, bound-multiplier suffixes and the status code belonging to the outcome in AMPL's sign conventions, and options from the command line, the ampl environment variable and ipopt.opt take effect with the documented precedence.",
  ["inputs", "configurations"], "all .nl problems (text format, linear and nonlinear, min and max, any bound kinds, suffixes) and solver option strings",
  "One .nl file is solved and only its exit code is used.",
  ["src/Apps/AmplSolver/AmplTNLP.cpp", "src/Apps/AmplSolver/ampl_ipopt.cpp"], [("AMPL TNLP", "src/Apps/AmplSolver/AmplTNLP.cpp")],
  [".sol files, exit codes, AmplTNLP callbacks"])

p("P27", "sIPOPT's sensitivity updates and reduced Hessians are the exact derivatives",
  "For parametric problems at a regular solution the sensitivity step of sIPOPT equals the solution of the linearized KKT system of the nominal solution for the requested parameter change (exact solution change for quadratic programs without active-set change), the returned multipliers change accordingly, and the reduced Hessian and its eigenvalues reported equal the inverse of the projected inverse KKT matrix computed independently; nominal results are those of plain Ipopt.",
  ["inputs", "configurations"], "all regular parametric NLPs with any number of parameters, any perturbation, any ordering of variables and constraints, all sIPOPT options",
  "The example tests run one fixed perturbation each and do not compare numbers.",
  ["contrib/sIPOPT/src/SensApplication.cpp", "contrib/sIPOPT/src/SensAlgorithm.cpp", "contrib/sIPOPT/src/SensStdStepCalc.cpp", "contrib/sIPOPT/src/SensIndexPCalculator.cpp", "contrib/sIPOPT/src/SensReducedHessianCalculator.cpp", "contrib/sIPOPT/src/SensIndexSchurData.cpp"],
  [("Schur complement steps", "contrib/sIPOPT/src")],
  ["sens_sol_state_1 metadata, directional derivatives, reduced Hessian output"])

p("P30", "The options store behaves like a typed, validated, prefix-aware map",
  "For every sequence of set, set-if-unset, get, copy, clear and insert operations the options list answers like a reference map: prefixes are case-insensitive (without a registry names as well; a registered name must be spelled as registered), values outside the registered type, bounds or choices are refused without changing the stored state, values set as not-overwritable stay, a prefixed value takes precedence over the unprefixed one and a default is returned exactly when nothing was set, with the return value telling which.",
  ["inputs", "histories"], "all operation sequences over all registered options, prefixes, letter cases and values (in range, on and beyond bounds, NaN, infinities, unparsable strings)",
  "No test exercises options beyond a few valid assignments.",
  [C+"IpOptionsList.cpp", C+"IpRegOptions.cpp"], [("store", C+"IpOptionsList.cpp"), ("validation", C+"IpRegOptions.cpp")],
  ["OptionsList public API"])

p("P31", "Option files are read token for token and errors are reported",
  "Reading an option file (or stream) sets exactly the options listed in it - the last value wins (the first one if overwriting is not allowed), comments from # to end of line, quoted strings, any whitespace, Fortran d/D exponents, Unix or Windows line endings and a missing final newline included - and reports failure on the first malformed or invalid entry. Printing the options and reading the printout back reproduces the same settings. No input makes it crash or hang.",
  ["inputs"], "all byte strings as option files; all option settings for the round trip",
  "Only tiny well-formed option files are read by the examples.",
  [C+"IpOptionsList.cpp", I+"IpIpoptApplication.cpp"], [("tokenizer", C+"IpOptionsList.cpp ReadFromStream, readnexttoken")],
  ["OptionsList::ReadFromStream, PrintList; IpoptApplication::Initialize"])

p("P32", "Every registered option accepts exactly its documented values",
  "For each registered option the default is itself a valid value, validity of numbers and integers is decided by the declared bounds and their strictness, validity of strings by the declared choices (case-insensitively, including * wildcards), enumerated lookups return the index of the choice, and the options documentation printed in any mode lists exactly once every option of the documented categories (priority at least the requested one; advanced options if requested) with exactly these defaults, bounds and choices, which for Ipopt's own options are those of the manual.",
  ["inputs", "configurations"], "all registered options of the library and randomly registered ones, all candidate values, all documentation modes",
  "Tests set a handful of valid values.",
  [C+"IpRegOptions.cpp", A+"IpAlgorithmRegOp.cpp"], [("registration and validation", C+"IpRegOptions.cpp")],
  ["RegisteredOptions / RegisteredOption public API"])

p("P33", "Messages reach exactly the journals whose level asks for them",
  "For every set of journals and print levels per category a message of a given level and category is written in full, in order and once to exactly those journals whose level for the category is at least the message's level, whatever its length or formatting; files get exactly this text, appended or truncated as requested, and adding a journal under an existing name is refused.",
  ["inputs", "histories"], "all sequences of journal creation, level changes and messages (any length, level, category and printf arguments)",
  "No test looks at journal contents.",
  [C+"IpJournalist.cpp"], [("routing", C+"IpJournalist.cpp")], ["Journal contents"])

p("P34", "Reference counting frees each object exactly once, when unused",
  "For every history of creating, copying, assigning (including self assignment and conversion to base or const pointers), comparing and dropping smart pointers, an object is alive as long as some smart pointer refers to it and is destroyed exactly once, when the last one goes away; comparisons behave as pointer comparisons.",
  ["histories"], "all operation sequences on pools of smart pointers and objects that own each other",
  "Tests only use smart pointers incidentally.",
  [C+"IpSmartPtr.hpp", C+"IpReferenced.hpp"], [("counting", C+"IpSmartPtr.hpp ReleasePointer_, SetFromRawPtr_")], ["object destructor, IsValid, raw pointer"])

p("P35", "Cached results are never stale and observers always hear of changes",
  "A result returned from a cache was stored for dependencies that have not changed since (same tags and same scalar values), at most the configured number of results is kept with the newest preferred, invalidation by tag or by key removes exactly the matching results, every modification of an object changes its tag to a never used value and notifies every attached observer once, and destroying subjects or observers in any order leaves no dangling notification.",
  ["histories"], "all sequences of add, get, invalidate, change, attach, detach and destroy over pools of objects and caches",
  "Stale cache hits need particular histories that a solve of an example never reaches visibly.",
  [C+"IpCachedResults.hpp", C+"IpObserver.cpp", C+"IpObserver.hpp", C+"IpTaggedObject.hpp"], [("cache", C+"IpCachedResults.hpp"), ("observer", C+"IpObserver.cpp")],
  ["CachedResults, TaggedObject, Observer public API"])

p("P36", "Basic numeric helpers are exact at the edges",
  "The finiteness test, the tolerance comparison, the scalar conversions, timers and the option-controlled random numbers behave as documented for all doubles: NaN and infinities are never finite, the comparison lhs<=rhs allows only a rounding-level slack relative to the reference value, timers never run backwards and sum exactly the started intervals, and random sequences repeat after a reset.",
  ["inputs", "histories"], "all doubles incl. NaN, infinities, denormals and huge magnitudes; all timer start/stop histories",
  "Edge values do not occur in the examples.",
  [C+"IpUtils.cpp", C+"IpUtils.hpp", C+"IpTimedTask.hpp"], [("helpers", C+"IpUtils.cpp")], ["public functions"])

p("P40", "Vector operations equal their mathematical definition in every representation",
  "For every sequence of operations on dense and compound vectors each operation (copies, axpy, scaled sums, element-wise products, quotients, min, max, abs, sqrt, sign, norms, dot, sums, logarithm sums, fraction-to-boundary, fill, copies into and out of parts) gives the mathematically defined result to rounding, whether operands are stored homogeneously, densely or as nested compounds, and leaves the other operands unchanged; norms and sums asked again reflect later changes.",
  ["inputs", "histories"], "all vector lengths incl. zero, all mixes of homogeneous/dense/compound representation and operation sequences, special values",
  "The solver exercises only particular representations; wrong special cases show up as rare convergence trouble.",
  [L+"IpVector.cpp", L+"IpDenseVector.cpp", L+"IpCompoundVector.cpp", L+"IpBlas.cpp"], [("homogeneous special cases", L+"IpDenseVector.cpp"), ("caching of norms", L+"IpVector.hpp")],
  ["Vector public API"])

p("P41", "Matrix operations equal their mathematical definition for every matrix type",
  "For every matrix type (triplet, dense, diagonal, identity, zero, sum, compound, scaled, transposed, expansion, low-rank, multi-vector) and nesting of them, matrix-vector and transposed products with any scalars, row and column maximum norms, the special products used by the step computation, factorizations of small dense matrices and finiteness checks give the mathematically defined result to rounding, including beta=0 overwriting of garbage and empty dimensions.",
  ["inputs", "programs"], "all dimensions incl. zero, nestings of matrix types, sparsity patterns with duplicates, scalars and vectors",
  "A solve uses a few combinations; nothing compares with a dense reference.",
  [L+"IpMatrix.cpp", L+"IpCompoundMatrix.cpp", L+"IpCompoundSymMatrix.cpp", L+"IpSumMatrix.cpp", L+"IpSumSymMatrix.cpp", L+"IpScaledMatrix.cpp", L+"IpSymScaledMatrix.cpp", L+"IpExpansionMatrix.cpp", L+"IpDenseGenMatrix.cpp", L+"IpDenseSymMatrix.cpp", L+"IpMultiVectorMatrix.cpp", L+"IpLowRankUpdateSymMatrix.cpp", L+"IpTransposeMatrix.cpp", L+"TMatrices/IpGenTMatrix.cpp", L+"TMatrices/IpSymTMatrix.cpp"],
  [("MultVectorImpl and friends", L)], ["Matrix/SymMatrix public API"])

p("P42", "Flattening nested matrices and converting formats loses nothing",
  "The triplet representation extracted from any nesting of matrices, and its conversion to compressed row storage (upper, lower or full, with or without offset, with extra diagonal entries), describe the same matrix as the nested object: same total per position, announced number of entries, sorted unique compressed entries; values changed later appear at the same places, and vectors put into and taken from flat arrays round-trip.",
  ["inputs", "programs"], "all nestings, sparsity patterns with duplicates and empty rows, formats and offsets",
  "The solver only ever converts the shape of its own system, and only MUMPS's triplet path runs in the tests.",
  [L+"TMatrices/IpTripletHelper.cpp", S+"IpTripletToCSRConverter.cpp"], [("triplet extraction", L+"TMatrices/IpTripletHelper.cpp"), ("conversion", S+"IpTripletToCSRConverter.cpp")],
  ["TripletHelper, TripletToCSRConverter public API"])

p("P44", "Linear systems are solved, with the right inertia, or refused",
  "For every symmetric matrix the linear solver layer either returns a solution with small residual for all right-hand sides together with the true number of negative eigenvalues, or reports singularity or wrong inertia, truthfully; repeated solves, changed values with unchanged structure, requests for more accuracy and multiple right-hand sides all refer to the latest matrix. The dependency detector returns rows whose removal leaves a full-rank system.",
  ["inputs", "histories", "configurations"], "all symmetric indefinite sparse matrices incl. singular and badly scaled, scaling methods, and sequences of factor/solve/increase-quality calls",
  "Solves of the examples check the final point only; inertia errors are masked by later perturbations.",
  [S+"IpTSymLinearSolver.cpp", S+"IpMumpsSolverInterface.cpp", S+"IpSlackBasedTSymScalingMethod.cpp", S+"IpTSymDependencyDetector.cpp", A+"IpStdAugSystemSolver.cpp"],
  [("factor and solve", S+"IpTSymLinearSolver.cpp MultiSolve"), ("inertia", S+"IpMumpsSolverInterface.cpp Factorization")],
  ["SymLinearSolver / AugSystemSolver public API"])

p("P45", "The search direction solves the primal-dual system it belongs to",
  "Whatever solver for the augmented system is used (standard, low-rank variants, restoration variant) and whatever the algorithm configuration, the computed step satisfies the linearized primal-dual equations of the current iterate, with the inertia-correcting perturbations actually applied, to the accepted residual tolerance, and the eliminated multiplier and slack parts agree with the full system.",
  ["inputs", "configurations", "histories"], "all iterates of all problems with all Hessian modes, degenerate Jacobians, right-hand sides and perturbation histories",
  "Wrong eliminations in rare blocks only slow convergence and never fail a smoke test.",
  [A+"IpPDFullSpaceSolver.cpp", A+"IpPDSearchDirCalc.cpp", A+"IpStdAugSystemSolver.cpp", A+"IpLowRankAugSystemSolver.cpp", A+"IpLowRankSSAugSystemSolver.cpp", A+"IpAugRestoSystemSolver.cpp", A+"IpGenAugSystemSolver.cpp", A+"IpPDPerturbationHandler.cpp"],
  [("block elimination", A+"IpPDFullSpaceSolver.cpp SolveOnce, ComputeResiduals"), ("perturbation policy", A+"IpPDPerturbationHandler.cpp")],
  ["AugSystemSolver results, search direction and perturbations at each iteration"])

p("P46", "Failures of the linear solver are survived or reported, never believed",
  "If the sparse linear solver reports singularity, wrong inertia, out-of-memory, a need to be called again or a fatal error at any call, or returns inaccurate solutions, the optimizer recovers by the documented means (perturbation, higher quality, restoration) or ends with a truthful non-success status; it neither crashes nor hangs nor reports a success that does not satisfy the tolerances.",
  ["fault_sequences", "inputs", "histories"], "all sequences of injected linear solver outcomes on all problems",
  "The bundled solver hardly ever fails on the examples.",
  [A+"IpPDFullSpaceSolver.cpp", A+"IpPDPerturbationHandler.cpp", S+"IpTSymLinearSolver.cpp", A+"IpIpoptAlg.cpp", A+"IpBacktrackingLineSearch.cpp"],
  [("recovery", A+"IpPDFullSpaceSolver.cpp Solve"), ("perturbation policy", A+"IpPDPerturbationHandler.cpp")],
  ["custom linear solver injected through the algorithm builder; status and results"])

p("P47", "The filter accepts exactly what is not dominated, and steps make progress",
  "For every history of added entries the filter accepts a pair exactly if it is not dominated, up to rounding, by any stored entry, adding an entry removes exactly the entries it dominates, and clearing empties it. In a solve with the filter line search every accepted regular iterate is acceptable to all filter entries stored earlier in that barrier subproblem.",
  ["histories", "inputs"], "all sequences of add/test/clear; all iterate histories of solves",
  "The examples need at most a handful of filter entries.",
  [A+"IpFilter.cpp", A+"IpFilter.hpp", A+"IpFilterLSAcceptor.cpp"], [("filter", A+"IpFilter.cpp"), ("acceptance", A+"IpFilterLSAcceptor.cpp")],
  ["Filter public API; iterate histories"])

p("P48", "Derived quantities always belong to the current point",
  "At any time, whatever was evaluated before and in whatever order, every derived quantity of the current and trial point (slacks, function values, gradients, Jacobian products, complementarities, infeasibilities, Lagrangian gradients, barrier terms, sigmas, errors, fraction-to-boundary step sizes) equals its definition evaluated from scratch at that point; setting new points never leaves older values behind.",
  ["inputs", "histories"], "all problems, all points, all orders of requests and of changes of current and trial points, scaled or not, also in the restoration problem",
  "Caching errors depend on request histories; examples check final objectives only.",
  [A+"IpIpoptCalculatedQuantities.cpp", A+"IpIpoptData.cpp", A+"IpIteratesVector.cpp", A+"IpOrigIpoptNLP.cpp", A+"IpRestoIpoptNLP.cpp"],
  [("caches keyed by tags", A+"IpIpoptCalculatedQuantities.cpp")], ["IpoptCalculatedQuantities public API"])

p("P49", "No input through the public interfaces causes memory errors or undefined use",
  "For every problem, option setting and callback behaviour allowed by the interface documentation, including empty problems, no constraints, no variables left after fixing, degenerate sparsity and extreme numbers, the library performs no invalid memory access, no use of uninitialized arrays handed to the user or taken from them, and leaks no memory once all handles are released.",
  ["inputs", "configurations", "histories"], "all public API histories generated for the other properties, run under address, leak and undefined-behaviour instrumentation",
  "Memory errors are silent in the tests, which run uninstrumented on a few problems.",
  [I+"IpTNLPAdapter.cpp", I+"IpStdCInterface.cpp", L+"IpDenseVector.cpp", S+"IpMumpsSolverInterface.cpp"],
  [("ownership by reference counting and tags", C)], ["sanitizer reports"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
