"""The properties, in one place; gen.py writes properties.jsonl and MANIFEST.json from them."""

MON = "runtime monitoring: "
NOTE = ("Exploration: the real code, built from the working tree with AddressSanitizer and UndefinedBehaviorSanitizer "
        "(every report fatal), over deterministic seeded workloads, judged by an independent oracle. ")

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, level="exploration"):
    rec = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
           "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                                              "hook_needed": None}}
    if observe:
        rec["anchors"]["observe_at"] = observe
    if state:
        rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"rec": rec, "technique": technique, "note": note, "level": level})


prop("C01", "The pooled result cache is a correct least-recently-used map",
     "After any history of lookups, acquisitions, associations and erasures, a key finds exactly the object last associated with "
     "it, never another key's object, until it is erased or is the least recently used one when room is needed. The pool never "
     "hands out an object that another live key still owns, never holds more than its capacity of distinct objects, and never "
     "invokes undefined behaviour.",
     ["histories", "inputs"],
     "every history of cache operations over every capacity, key type, hash (colliding included) and key equality",
     "The tests run a dozen fixed histories on integer keys; recency order, reuse of freed slots and re-association interact over "
     "histories of any length.",
     ["trajopt_common/include/trajopt_common/cache.h"],
     [("recency list, key map and object map kept in step", "trajopt_common/include/trajopt_common/cache.h")],
     MON + "lock-step reference model of the cache under ASan/UBSan",
     NOTE + "A reference model fixes every observable answer; single-threaded histories, as the class documents.")

prop("C02", "Affine and quadratic expression algebra is exact",
     "Every way of adding, subtracting, scaling, multiplying, squaring or simplifying affine and quadratic expressions yields an "
     "expression that has, at every point, the value of the same operation on the operands' values. Operands that are not "
     "modified by contract keep their value, and repeated variables, zero coefficients and empty expressions are handled alike. The "
     "printed text of an expression or constraint denotes the same function.",
     ["inputs", "programs"],
     "every program of expression operations over any number of variables, repeated terms, zero and extreme coefficients",
     "The tests multiply two or three fixed expressions; the algebra must hold for every combination of operations and operands.",
     ["trajopt_sco/include/trajopt_sco/expr_ops.hpp", "trajopt_sco/src/expr_ops.cpp", "trajopt_sco/include/trajopt_sco/expr_op_overloads.hpp",
      "trajopt_sco/include/trajopt_sco/expr_vec_ops.hpp", "trajopt_sco/src/expr_vec_ops.cpp", "trajopt_sco/src/solver_interface.cpp"],
     [("expression operations", "trajopt_sco/src/expr_ops.cpp"), ("term merging", "trajopt_sco/src/expr_ops.cpp cleanupAff, cleanupQuad"),
      ("evaluation", "trajopt_sco/src/solver_interface.cpp AffExpr::value, QuadExpr::value")],
     MON + "random operation programs beside an exact polynomial oracle under ASan/UBSan",
     NOTE + "Coefficients are compared as polynomials, so a re-ordering of terms is not an alarm; tolerance 1e-9 relative.")

prop("C03", "Converting expressions and matrices between solver formats loses nothing",
     "Converting affine or quadratic expressions into sparse vectors and matrices, and matrices to and from triplets and "
     "compressed-column arrays, preserves every coefficient at its position, combines repeated terms, and yields well-formed "
     "(in-range, sorted, duplicate-free) column storage. A half-matrix request yields exactly the upper half, and dimensions "
     "that are too small are refused instead of corrupting memory.",
     ["inputs"],
     "every expression, sparse matrix and triplet list: any size, density, duplicates, explicit zeros, uncompressed storage",
     "The tests convert one 3x3 matrix and two or three fixed expressions.",
     ["trajopt_sco/include/trajopt_sco/solver_utils.hpp", "trajopt_sco/src/solver_utils.cpp"],
     [("expression conversion", "trajopt_sco/src/solver_utils.cpp exprToEigen"), ("CSC conversion", "trajopt_sco/include/trajopt_sco/solver_utils.hpp eigenToCSC")],
     MON + "dense oracle for every conversion under ASan/UBSan",
     NOTE + "Every converted object is rebuilt densely and compared entry by entry.")

prop("C04", "Convexified costs and constraints match the original at the expansion point",
     "The convex form of a cost or constraint has, at the point of convexification, the value of the original, and elsewhere the "
     "value of the weighted penalty of the linearised error (for a scalar cost: a convex quadratic with the cost's gradient). "
     "Violations are non-negative and zero exactly for satisfied constraints, and everything a convex term added to a model is "
     "gone from it when the term is removed or destroyed.",
     ["inputs", "histories"],
     "every smooth error function, variable selection and order, weight vector, penalty kind, constraint kind, analytic or numeric "
     "derivative, and point of expansion",
     "The existing tests never convexify: the optimizer tests that would need a third-party solver are not built, and one point "
     "says nothing about a local model.",
     ["trajopt_sco/src/modeling.cpp", "trajopt_sco/src/modeling_utils.cpp", "trajopt_sco/src/num_diff.cpp", "trajopt_sco/include/trajopt_sco/modeling.hpp",
      "trajopt_sco/include/trajopt_sco/modeling_utils.hpp"],
     [("linearisation of error functions", "trajopt_sco/src/modeling_utils.cpp"), ("hinge, absolute and max terms through auxiliary variables", "trajopt_sco/src/modeling.cpp ConvexObjective"),
      ("removal of added items", "trajopt_sco/src/modeling.cpp ConvexObjective::removeFromModel")],
     MON + "recording model plus vertex-enumeration oracle for auxiliary variables, under ASan/UBSan",
     NOTE + "A recording model sees what each term adds; its objective is minimised exactly over the auxiliary variables and "
     "compared with the penalty of the exact linearisation (looser tolerance for numeric derivatives).")

prop("C05", "A problem keeps its variables, bounds, costs and constraints in step",
     "After any history of adding variables, costs and constraints and of setting bounds, an optimization problem reports exactly "
     "what was added, in order, with the bounds last set. Points it repairs lie inside the bounds (a wide enough box: inside the "
     "margin), points it projects are the closest feasible points, costs and violations it evaluates equal those of the terms "
     "themselves, and malformed requests are refused.",
     ["histories", "inputs"],
     "every history of problem construction, every box (infinite, degenerate, narrow) and every point",
     "The existing tests build no problem with bounds; repair and projection depend on the box and the point.",
     ["trajopt_sco/src/modeling.cpp", "trajopt_sco/include/trajopt_sco/modeling.hpp"],
     [("problem bookkeeping", "trajopt_sco/src/modeling.cpp OptProb::createVariables, setLowerBounds, addCost, addConstraint"),
      ("repair and projection", "trajopt_sco/src/modeling.cpp OptProb::getClosestFeasiblePoint, getCentralFeasiblePoint")],
     MON + "lock-step record of the history, exact projection oracle, under ASan/UBSan",
     NOTE + "The projection is judged against an exact active-set QP oracle; the solver used is the BPMPD the repository ships.")

prop("C06", "A solver model solves exactly the problem it was given",
     "After any history of adding and removing variables and rows, changing bounds and setting affine or quadratic objectives, "
     "the BPMPD model solves exactly the current problem: an optimal status comes with a feasible point of minimal objective, an "
     "infeasible problem is never reported solved, indices and values stay attached to the surviving variables, and the problem "
     "handed to the solver process arrives there complete, whatever its size.",
     ["histories", "inputs"],
     "every convex problem and every history of changes to it, several models beside each other, problems larger than a pipe buffer",
     "The tests solve two fixed problems; removal, re-indexing and re-solving interact over histories.",
     ["trajopt_sco/src/bpmpd_interface.cpp", "trajopt_sco/include/trajopt_sco/bpmpd_interface.hpp", "trajopt_sco/include/trajopt_sco/bpmpd_io.hpp",
      "trajopt_sco/src/bpmpd_caller.cpp", "trajopt_sco/src/solver_interface.cpp"],
     [("model changes and re-indexing", "trajopt_sco/src/bpmpd_interface.cpp BPMPDModel::update"),
      ("problem assembly", "trajopt_sco/src/bpmpd_interface.cpp BPMPDModel::optimize"),
      ("message passing to the solver process", "trajopt_sco/include/trajopt_sco/bpmpd_io.hpp ser")],
     MON + "lock-step reference model with an exact QP oracle, and a recording solver process, under ASan/UBSan",
     NOTE + "The real shipped BPMPD solves; a second build talks to a recording stand-in which sees the bytes that arrive.")

prop("C07", "A solver is the one that was named, however it was named",
     "Each solver name, enumerator and number denotes one and the same solver in every direction (printing, parsing, JSON, "
     "creation, environment selection), names and numbers that denote no solver are refused without changing anything, an explicit "
     "choice is never overridden by the environment, and a model is only ever created for a solver that is built in, being of that "
     "solver's own kind; the automatic choice is one of the available solvers.",
     ["inputs", "configurations"],
     "every solver name, number, JSON value and environment setting, in builds with one and with several solvers",
     "The tests know only the solver that is built in, and never go from a name to a model.",
     ["trajopt_sco/src/solver_interface.cpp", "trajopt_sco/include/trajopt_sco/solver_interface.hpp", "trajopt_sco/src/modeling.cpp"],
     [("names and numbers", "trajopt_sco/src/solver_interface.cpp ModelType"), ("selection", "trajopt_sco/src/solver_interface.cpp createModel, availableSolvers")],
     MON + "table oracle over names, values, environment and dynamic type of the created model, under ASan/UBSan",
     NOTE + "OSQP and qpOASES are not installed: a second build uses stand-ins which keep their interface.")

prop("C18", "The OSQP and qpOASES models hand over the right problem and report the outcome",
     "After any history of changes, and under every configuration of workspace updates and warm starts, the OSQP and qpOASES models "
     "give the library exactly the current problem in the form it requires (upper triangular or full symmetric Hessian with "
     "diagonal, well-formed columns, the structure only kept when it is unchanged), report its outcome as what it is, stay usable "
     "after every failure, and neither leak nor touch freed workspaces. A file the OSQP model writes describes that problem.",
     ["histories", "inputs", "fault_sequences"],
     "every convex problem, every history of changes, every configuration, every outcome the library can report",
     "The tests of these adapters need the libraries, solve two fixed problems and never update a workspace or see a failure.",
     ["trajopt_sco/src/osqp_interface.cpp", "trajopt_sco/include/trajopt_sco/osqp_interface.hpp", "trajopt_sco/src/qpoases_interface.cpp",
      "trajopt_sco/include/trajopt_sco/qpoases_interface.hpp"],
     [("workspace reuse", "trajopt_sco/src/osqp_interface.cpp OSQPModel::createOrUpdateSolver"), ("hot start", "trajopt_sco/src/qpoases_interface.cpp qpOASESModel::optimize")],
     MON + "lock-step reference model beside the adapters on exact, fault-injecting stand-ins of the libraries, under ASan/UBSan",
     NOTE + "The libraries are not installed; the stand-ins keep their documented interface (OSQP 1.0, qpOASES 3.2), copy or keep what the real "
     "ones do, solve by an interior point method and check every argument.")

prop("C08", "The SQP optimizer walks by its documented rules and reports what it reached",
     "Every iterate of the trust-region SQP optimizer lies inside the variable bounds, the linear constraints the solver was given "
     "and the trust box around the previous accepted point; the convex subproblem is the convexified costs plus penalised constraints; "
     "a step is accepted exactly when it improves the merit function by the configured ratio; trust region and penalties change by "
     "the configured rules only; the run ends with the documented status; the returned point, costs, violations, counts and log files "
     "agree with a fresh evaluation of that point; convergence is only reported with every violation below tolerance; solver failures, "
     "time limits, several threads, repeated runs and unwritable logs change none of this, and nothing stays behind in the model.",
     ["inputs", "configurations", "fault_sequences"],
     "every problem, start, parameter setting, sequence of solver failures and number of threads",
     "The tests run three fixed problems to a converged end; rejections, failures, penalty growth, limits and reuse interact over whole runs.",
     ["trajopt_sco/src/optimizers.cpp", "trajopt_sco/include/trajopt_sco/optimizers.hpp", "trajopt_sco/src/modeling.cpp"],
     [("SQP loop", "trajopt_sco/src/optimizers.cpp BasicTrustRegionSQP::optimize"),
      ("merit bookkeeping", "trajopt_sco/src/optimizers.cpp BasicTrustRegionSQPResults::update"),
      ("threads", "trajopt_sco/src/optimizers.cpp BasicTrustRegionSQPMultiThreaded")],
     MON + "specification automaton in lock-step with the real optimizer on an exact, fault-injecting solver model, under ASan/UBSan",
     NOTE + "The subproblem the optimizer builds is judged as the polynomial the solver was given, independent of its auxiliary variables; "
     "a decision closer to a tie than rounding permits is not judged further.")

prop("C19", "The OSQP adapter of trajopt_sqp solves the problem it was last given",
     "After any sequence of init, clear and updates (whole or one-sided, before or after a solve, with the same or another sparsity "
     "pattern, after refused data or a failed solve), the problem OSQP holds when OSQPEigenSolver::solve() is called is the one last "
     "given: twice the Hessian, the gradient up to entries below 1e-7, the constraint matrix, and the limits clipped to OSQP's infinity, "
     "under the settings the user chose. Data that fit are accepted; a Hessian, gradient or limits of another size are refused and change "
     "nothing. solve() returns true exactly when OSQP reports no error and solved (also inaccurately), getSolution() is then OSQP's "
     "solution, and getSolverStatus() tells uninitialised, initialised and a failure of the most recent solve apart. A warm start is the "
     "problem's current values with the non-negative slacks that their rows need and no others, given only when enabled. Through "
     "whole runs of TrustRegionSQPSolver, OSQP holds at every solve the problem's current matrices and limits. Nothing leaks.",
     ["histories", "fault_sequences"],
     "every sequence of calls, sizes, patterns, values and outcomes of OSQP",
     "The tests of this adapter need the libraries and a robot, and judge a trajectory; a stale matrix, gradient or limit after an update in "
     "place solves another problem without any error.",
     ["trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/osqp_eigen_solver.h"],
     [("updates", "osqp_eigen_solver.cpp OSQPEigenSolver::update*"), ("warm start", "osqp_eigen_solver.cpp OSQPEigenSolver::setWarmStart"),
      ("outcome", "osqp_eigen_solver.cpp OSQPEigenSolver::solve")],
     MON + "reference model of what was given, compared with what an exact, fault-injecting stand-in of OSQP holds at every solve, under ASan/UBSan",
     NOTE + "Neither library is installed; the stand-in keeps osqp-eigen's rules (vectors are borrowed, so a dangling one is read and "
     "reported; a changed pattern is set up anew) on top of the stand-in for OSQP 1.0.")

prop("C20", "Threads that share a model, or only the process, do not disturb each other",
     "Models may be grown, bounded and pruned by several threads at once without a data race: afterwards every variable, bound and row a "
     "thread left is there exactly once with its own values. The multi-threaded SQP optimizer evaluates, convexifies and runs without a "
     "race, gives for every cost and constraint the values the single-threaded one gives, and leaves nothing behind. Problems solved in "
     "separate threads, with any solver, end exactly as each does alone.",
     ["schedules", "inputs"],
     "every interleaving of several threads on one model, of the multi-threaded optimizer's loops, and of unrelated problems",
     "The tests are single-threaded; a race needs two threads meeting in a window of a few instructions.",
     ["trajopt_sco/src/optimizers.cpp", "trajopt_sco/src/bpmpd_interface.cpp", "trajopt_sco/src/osqp_interface.cpp", "trajopt_sco/src/qpoases_interface.cpp",
      "trajopt_sco/src/solver_interface.cpp", "trajopt_sco/src/modeling_utils.cpp"],
     [("locks of the models", "trajopt_sco/src/osqp_interface.cpp OSQPModel::addVar, setVarBounds"),
      ("parallel loops", "trajopt_sco/src/optimizers.cpp BasicTrustRegionSQPMultiThreaded"),
      ("the shared solver process", "trajopt_sco/src/bpmpd_interface.cpp BPMPDModel::optimize")],
     MON + "ThreadSanitizer with injected delays, and comparison with the single-threaded outcome",
     "Exploration: the real code, built from the working tree with ThreadSanitizer (every report fatal). The OpenMP runtime is replaced by a "
     "stand-in on std::thread whose work hand-out orders nothing, with seeded delays; distinct schedules are counted.")

INOTE = NOTE + "trajopt_ifopt is built complete; the few tesseract types it names are stand-ins of the same shape. "

prop("C09", "Joint constraints and costs of trajopt_ifopt have exact values and gradients",
     "For any trajectory of variables, the joint position, velocity, acceleration and jerk constraints have, row by row, the joint value or "
     "the finite difference of the positions at that step (forward while it fits, backward at the end), the exact derivative of it, the "
     "target as bounds and the coefficient asked for (one for all, one per joint, or the default); a range bound split in two rows keeps its joint, "
     "bounds and coefficient; squared and absolute costs are the weighted sum of the squared or absolute distances to the bounds and have "
     "that function's gradient; malformed sizes and coefficients are refused.",
     ["inputs", "configurations"],
     "every number of steps, joints and interleaved variables, every target, bound and coefficient vector, every point",
     "The tests check one trajectory with one joint vector per node; interleaved variables, ranges, default coefficients and the last steps are not sampled.",
     ["trajopt_ifopt/src/constraints/joint_position_constraint.cpp", "trajopt_ifopt/src/constraints/joint_velocity_constraint.cpp",
      "trajopt_ifopt/src/constraints/joint_acceleration_constraint.cpp", "trajopt_ifopt/src/constraints/joint_jerk_constraint.cpp",
      "trajopt_ifopt/src/costs/squared_cost.cpp", "trajopt_ifopt/src/costs/absolute_cost.cpp"],
     [("finite differences", "trajopt_ifopt/src/constraints/joint_jerk_constraint.cpp getValues, getJacobian"),
      ("range splitting", "trajopt_ifopt/src/constraints/joint_position_constraint.cpp JointPosConstraint")],
     MON + "independent difference table and distance oracle over random variable layouts, under ASan/UBSan",
     INOTE)

prop("C10", "Limits are classified, measured, interpolated and differentiated exactly",
     "A pair of limits has exactly the kind its values imply (unbounded, lower, upper, range, equality; 1e20 counts as infinite), every "
     "helper that measures how far a value is outside its limits (signed error, violation, clamping to the closest feasible value) agrees "
     "with the definition for every kind, linear interpolation between two states reaches both ends with equal steps, and forward "
     "differences of a function approximate its derivative, entry by entry, with the error the step size implies, evaluating it only "
     "where asked and leaving the point as it was.",
     ["inputs"],
     "every pair of limits (infinite, threshold, equal, narrow), every point on, at and off them, every dimension and number of steps",
     "The tests use a handful of round numbers; limits next to the infinity threshold, narrow ranges and mixed vectors are not sampled.",
     ["trajopt_ifopt/include/trajopt_ifopt/core/bounds.h", "trajopt_ifopt/src/utils/ifopt_utils.cpp", "trajopt_ifopt/include/trajopt_ifopt/utils/ifopt_utils.h",
      "trajopt_ifopt/src/utils/numeric_differentiation.cpp"],
     [("classification", "trajopt_ifopt/include/trajopt_ifopt/core/bounds.h Bounds::update"),
      ("errors and violations", "trajopt_ifopt/src/utils/ifopt_utils.cpp calcBoundsErrors, calcBoundsViolations"),
      ("finite differences", "trajopt_ifopt/src/utils/numeric_differentiation.cpp calcForwardNumGrad, calcForwardNumJac")],
     MON + "definitions of every kind of limit as oracle over boundary-biased limits and points, under ASan/UBSan",
     INOTE)

prop("C11", "A trajopt_ifopt problem is the stack of its parts at the current point",
     "A variable set lays its nodes and variables out one after the other, in the order given; names, indices, bounds, values and "
     "parents stay in step under any number of updates, initial values are clamped to the bounds, and its hash changes when the values do. "
     "A composite has the rows, values, bounds, coefficients, non-zeros and Jacobian of its components stacked in order (or summed). A problem's cost is the sum of "
     "all its cost terms and its gradient is the derivative of that, its constraint values and Jacobian are those of its parts at the "
     "point asked for, saved iterates can be restored exactly, and malformed sizes are refused.",
     ["inputs", "histories"],
     "every layout of variables, set of constraints and costs, and every history of updates, saved and restored iterates",
     "The tests use single-variable sets and one cost; mixed layouts, several costs, summed or nested composites and histories are not sampled.",
     ["trajopt_ifopt/src/core/problem.cpp", "trajopt_ifopt/src/core/composite.cpp", "trajopt_ifopt/src/core/constraint_set.cpp",
      "trajopt_ifopt/src/variable_sets/nodes_variables.cpp", "trajopt_ifopt/src/variable_sets/node.cpp", "trajopt_ifopt/src/variable_sets/var.cpp"],
     [("stacking", "trajopt_ifopt/src/core/composite.cpp CompositeConstraint"), ("saved iterates", "trajopt_ifopt/src/core/problem.cpp saveCurrent, setOptVariables"),
      ("layout", "trajopt_ifopt/src/variable_sets/nodes_variables.cpp NodesVariables")],
     MON + "reference layout and stack beside the real objects over random histories, under ASan/UBSan",
     INOTE)

prop("C12", "Convex expressions of the SQP optimizer evaluate to what they stand for",
     "For every value, Jacobian and Hessian handed to it, an affine or quadratic expression of trajopt_sqp equals the function at the point it was expanded at, "
     "has the given gradient there, and away from it evaluates to exactly the affine or quadratic polynomial these determine, row by row; the square of an affine "
     "expression is the square of its values. An expression object that is reused for another function or size behaves like a fresh one.",
     ["inputs", "histories"],
     "every function value, gradient and Hessian of any size and sparsity, every evaluation point, and every history of reuse",
     "The repository has no direct test of these expressions; sizes, sparsity patterns and stale state of reused objects are unbounded.",
     ["trajopt_optimizers/trajopt_sqp/src/expressions.cpp", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/expressions.h"],
     [("affine", "trajopt_optimizers/trajopt_sqp/src/expressions.cpp AffExprs"), ("quadratic", "trajopt_optimizers/trajopt_sqp/src/expressions.cpp QuadExprs, squareAffExprs")],
     MON + "dense reference polynomials beside the real expressions, under ASan/UBSan",
     INOTE)
prop("C13", "The QP subproblem of trajopt_sqp is the convex model of the problem at the point",
     "For every problem and at every point, both QP formulations of trajopt_sqp (TrajOptQPProblem, IfoptQPProblem) build matrices whose objective, minimised over the "
     "slack variables, is (up to a constant) the weighted squared, hinge and absolute penalties of the linearised costs plus merit coefficient times the linearised "
     "violation of each constraint; the variables stay within trust region and bounds; evaluating the convex model yields that model per cost and "
     "constraint and agrees with the exact costs and violations at the expansion point; exact costs and violations are those of the functions. This stays so "
     "under any history of new points, boxes, penalties, convexifications and set-ups, also when dynamic sets change their number of rows.",
     ["inputs", "histories"],
     "every set of variables, costs and constraints of every kind, and every history of operations on the problem",
     "The tests solve a few fixed problems and look at the solution only; wrong weights, stale rows or a wrong slack pattern of other shapes pass them.",
     ["trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp", "trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp"],
     [("trajopt formulation", "trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp TrajOptQPProblem::Implementation"),
      ("ifopt formulation", "trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp IfoptQPProblem::convexify")],
     MON + "reference penalised linear model, evaluated beside the matrices over random histories, under ASan/UBSan",
     INOTE)

prop("C14", "The SQP solver of trajopt_sqp steps and reports as its parameters say",
     "For every problem, parameter set and behaviour of QP solver and callbacks, a run of TrustRegionSQPSolver (and each of its steps in online use) follows the "
     "documented algorithm: every QP is solved with exactly the problem's current matrices and limits, at the best point; a step is accepted only if it improves the "
     "exact merit by the required share of the predicted improvement, and otherwise leaves the best values untouched while the box shrinks; penalties grow for the violated "
     "constraints only (or all, if so set); limits on iterations, penalties, time and solver failures hold; a callback that returns false or a solver that fails "
     "too often ends the run; every callback sees consistent results; the problem is left at the best point, results are those of that point, and "
     "convergence is reported only if all constraints are within tolerance.",
     ["inputs", "histories", "fault_sequences"],
     "every problem, parameter set, sequence of QP outcomes, refused updates and callback answers",
     "The tests look at the solutions of a few well-behaved problems; the rejected steps, failures, stops and bookkeeping of other runs are not reached.",
     ["trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp", "trajopt_optimizers/trajopt_sqp/src/types.cpp"],
     [("algorithm", "trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp TrustRegionSQPSolver::solve"),
      ("parameters", "trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/types.h SQPParameters")],
     MON + "lock-step online checker of the algorithm over recorded event logs of scripted merit landscapes with injected faults, truth of results on real problems, under ASan/UBSan",
     INOTE)

prop("C15", "JSON problem data is read as it is or refused",
     "Reading a JSON value as boolean, integer, number, text, list (of a required length or any), three- or four-vector, or member of an object gives exactly the value "
     "that is there, in order, whatever the target held before; a missing member gives the stated default, or is refused where there is none; and a value of the wrong type "
     "or length is refused with a std::runtime_error that names what was expected, never converted silently, read out of bounds or left as some other exception.",
     ["inputs"],
     "every JSON document, well-formed for its reader or not",
     "No test covers the reader; the documents come from users' files, so every type, size and nesting has to be expected.",
     ["trajopt/include/trajopt/json_marshal.hpp", "trajopt/src/json_marshal.cpp"],
     [("values", "trajopt/src/json_marshal.cpp fromJson"),
      ("lists and members", "trajopt/include/trajopt/json_marshal.hpp fromJsonArray, childFromJson")],
     MON + "comparison of everything read with the document it was generated from, and of everything refused with the reason, under ASan/UBSan",
     INOTE)

prop("C16", "Array, slicing, interpolation, pose and text helpers do what they say",
     "Every block, row range, row, column and copy of an array holds exactly the addressed elements; conversions between vectors, slices and index lists keep values and "
     "order; interpolation is piecewise linear between the samples and constant beyond them; a twist turns and shifts a pose by exactly its rotation and translation over the time and "
     "leaves a pose; lists, sets and maps print their elements in order; options are read from the command line exactly or refused; the log threshold is the one "
     "named in the environment; and the clock counts elapsed time.",
     ["inputs"],
     "every array, range, sample set, pose, twist, collection and command line",
     "No test covers these helpers; a wrong index shows only for ranges that do not start at zero or are not square.",
     ["trajopt_common/include/trajopt_common/basic_array.hpp", "trajopt_common/include/trajopt_common/interpolation.hpp",
      "trajopt_common/include/trajopt_common/eigen_slicing.hpp", "trajopt_common/include/trajopt_common/eigen_conversions.hpp",
      "trajopt_common/src/utils.cpp", "trajopt_common/src/stl_to_string.cpp", "trajopt_common/src/config.cpp",
      "trajopt_common/src/logging.cpp", "trajopt_common/src/clock.cpp"],
     [("blocks", "trajopt_common/include/trajopt_common/basic_array.hpp block, middleRows"),
      ("interpolation", "trajopt_common/include/trajopt_common/interpolation.hpp searchsorted, interp2d"),
      ("twist", "trajopt_common/src/utils.cpp addTwist")],
     MON + "every result compared with a direct computation from the definition, under ASan/UBSan and libstdc++ assertions",
     INOTE)

prop("C17", "Convex decompositions are valid hulls that cover the solid, also in background",
     "Decomposing a closed mesh into voxels and convex parts ends with hulls that are closed, convex up to the accuracy of the voxels, no more and of no more vertices than asked "
     "for, inside of the solid's box, together cover the solid up to one voxel where no vertices were to be dropped, and carry their own volume and centre; the same mesh and parameters give the same "
     "hulls again, in the foreground, in the background and with any number of threads; a run that was cancelled, from a callback or any thread and at any time, leaves no or complete hulls and the next run "
     "is not affected; messages arrive in the caller's thread; and whenever an object is cleaned, reused or released nothing races, leaks, hangs or is used after it was freed.",
     ["inputs", "schedules", "histories"],
     "every closed mesh of cells, set of parameters, point set, and history of starting, polling, cancelling, cleaning and releasing",
     "No test decomposes anything; numerical faults show for few meshes, and threading faults for few moments of a run.",
     ["trajopt_ext/vhacd/src/VHACD.cpp", "trajopt_ext/vhacd/src/VHACD-ASYNC.cpp", "trajopt_ext/vhacd/src/vhacdICHull.cpp", "trajopt_ext/vhacd/src/vhacdMesh.cpp",
      "trajopt_ext/vhacd/src/vhacdVolume.cpp", "trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h", "trajopt_ext/vhacd/src/btConvexHullComputer.cpp",
      "trajopt_ext/vhacd/src/vhacdRaycastMesh.cpp"],
     [("decomposition", "trajopt_ext/vhacd/src/VHACD.cpp ComputeACD, MergeConvexHulls, SimplifyConvexHull"),
      ("voxels", "trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h Volume::Voxelize"),
      ("incremental hull", "trajopt_ext/vhacd/src/vhacdICHull.cpp ICHull::Process"),
      ("background", "trajopt_ext/vhacd/src/VHACD-ASYNC.cpp MyHACD_API")],
     MON + "geometric judges of every hull, voxel set, clip and ray against the solid it was made from, comparison of runs with each other, allocation counts, ASan/UBSan, and "
     "TSan with an OpenMP runtime it understands",
     INOTE)
prop("C21", "Collision constraints see every contact, with its true error and derivative",
     "For every manipulator, surroundings, margins and coefficients (default or by pair, in any order of names), and every history of "
     "variable values, the discrete and continuous collision constraints see exactly the contacts within margin plus buffer, except those of "
     "pairs whose coefficient was set to zero and those only at a fixed end. Motions are checked from end to end in steps no longer than the "
     "longest valid segment, every moving link being where that state puts it. The constraints with a dynamic number of rows have a row per "
     "contact: the margin of the pair minus the distance, the pair's coefficient, at most zero, and its exact derivative, divided between the "
     "two ends of a motion by the time of contact (zero for a fixed end). Those with a fixed number of rows keep the link and shape pairs with "
     "the largest errors, whichever link of the pair moves: a row's value is the pair's largest error and its derivative the average of those "
     "of its contacts and links weighted by the error with buffer; unused rows are minus the buffer with no derivative; fixed sparsity does "
     "not change. The numerical variants have the same values and the differences of their values as derivatives. Results do not depend on what was "
     "evaluated before; wrong evaluator types, counts and variables are refused.",
     ["inputs", "histories", "configurations"],
     "every manipulator, world, margin, coefficient, evaluator type, pair of states and order of evaluation",
     "The tests of this part need tesseract and a handful of boxes; a dropped contact, a lost pair or a gradient given to the wrong end only "
     "shows for particular worlds, and as a trajectory that collides.",
     ["trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp", "trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp",
      "trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp",
      "trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp", "trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp",
      "trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp",
      "trajopt_ifopt/src/constraints/collision/weighted_average_methods.cpp", "trajopt_common/src/collision_utils.cpp", "trajopt_common/src/collision_types.cpp"],
     [("evaluators", "continuous_collision_evaluators.cpp, discrete_collision_evaluators.cpp calcCollisionsHelper"),
      ("gradients", "collision_utils.cpp getGradient, calcGradient"), ("averages", "weighted_average_methods.cpp"),
      ("rows", "*_collision_constraint.cpp getValues, getJacobian")],
     MON + "geometric oracle on a world of spheres whose contacts, times of contact and derivatives are known in closed form; the contact "
     "managers of the world record every state they were asked about, under ASan/UBSan",
     INOTE + "tesseract is not installed; the stand-in keeps its interface. With revolute joints the swept links are compared up to the "
     "curvature of the motion; gantries are compared exactly.")

prop("C22", "Trajopt's joint terms impose the finite differences they are named for",
     "For every range of steps, number of joints, weights, targets and tolerances, the joint position, velocity, acceleration and jerk costs "
     "and constraints have the value of the weighted finite differences of the trajectory they are given, squared, beyond the tolerance or as "
     "a constraint, over exactly the steps and joints they cover. Their convex model is that same function everywhere, and adding it to and "
     "removing it from a model leaves nothing behind; a range too short for the derivative is refused. Arrays of variables, trajectories and "
     "subsets of their columns keep every element at its place.",
     ["inputs"],
     "every term kind and order, step range, joint count, weight, target, tolerance and trajectory",
     "The tests of this part need tesseract and look at one optimised trajectory; a wrong step, weight or sign only shifts where it ends.",
     ["trajopt/src/trajectory_costs.cpp", "trajopt/include/trajopt/trajectory_costs.hpp", "trajopt/src/utils.cpp", "trajopt/include/trajopt/utils.hpp",
      "trajopt/include/trajopt/typedefs.hpp"],
     [("terms", "trajopt/src/trajectory_costs.cpp"), ("arrays", "trajopt/src/utils.cpp, trajopt/include/trajopt/typedefs.hpp")],
     MON + "written-out finite differences beside the real terms and their convex models, under ASan/UBSan",
     NOTE + "An equality constraint reports its squared differences (as its sources say), so only its zero set and magnitude are judged; a satisfied "
     "tolerance row may be reported as it is or as zero.")

prop("C23", "Cartesian, kinematic and singularity terms measure what they are named for",
     "For every manipulator, pair of frames (either or both moving), offsets, indices, coefficients, tolerances and state, the Cartesian position, "
     "pose, line and velocity terms, the inverse kinematics constraint, the time-scaled joint velocity and total time terms and the singularity terms "
     "have the values they are documented to have: the pose of one frame seen from the other, the part of it beyond the tolerance, the distance to the "
     "nearest point of the line, the distance to the nearest inverse kinematics solution, the limit minus the motion, the inverse of the smallest singular "
     "value. Their Jacobians are the derivatives of these values, zero for other variables; rows, bounds and coefficients belong to the components that were "
     "asked for; malformed descriptions are refused; results do not depend on what other terms evaluated, nor on assertions being enabled.",
     ["inputs", "configurations"],
     "every manipulator, frame pair, offset, index subset, tolerance, line, variable layout and joint state",
     "The tests of this part need tesseract and look at one arm at one or two states, with all six components.",
     ["trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp", "trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp",
      "trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp", "trajopt_ifopt/src/utils/trajopt_utils.cpp",
      "trajopt/src/kinematic_terms.cpp", "trajopt/include/trajopt/kinematic_terms.hpp"],
     [("position", "cartesian_position_constraint.cpp"), ("line", "cartesian_line_constraint.cpp getLinePoint"), ("inverse kinematics", "inverse_kinematics_constraint.cpp"),
      ("error and Jacobian calculators", "trajopt/src/kinematic_terms.cpp")],
     MON + "kinematics, pose errors and singular values of an oracle beside the real terms, one-sided differences for every Jacobian, in builds with and "
     "without assertions under ASan/UBSan",
     NOTE + "tesseract is not installed; the stand-in keeps its interface. Entries at a kink (the one-sided differences disagree) and rotations near half a "
     "turn are not compared.")

prop("C24", "Trajopt's collision terms measure and linearise every contact of the motion",
     "For every manipulator, world, margins, coefficients, buffer, motion and choice of free or fixed ends, trajopt's collision costs and constraints count "
     "exactly the contacts of the states (or of the swept motion between two states, checked without gaps and in steps no longer than the longest valid "
     "segment) whose distance is within margin and buffer, leaving out pairs of zero coefficient and contacts at a fixed end. The cost is the sum over them of "
     "coefficient times the margin violated, the constraint one row each; their convex models agree with them at the point and have the derivative of the "
     "distances with the free variables only. Asking again, in any order, gives the same; results handed out stay valid; unsuitable combinations of check and "
     "evaluator type are refused; what is plotted is what was found.",
     ["inputs", "histories", "configurations"],
     "every manipulator, world, margin, coefficient, motion, fixed end and order of questions",
     "The tests of this part need tesseract and look at whether one trajectory ends free of collisions; a wrong row, weight, end or stale result mostly does not show there.",
     ["trajopt/src/collision_terms.cpp", "trajopt/include/trajopt/collision_terms.hpp", "trajopt/include/trajopt/cache.hxx", "trajopt_common/src/collision_utils.cpp"],
     [("evaluators", "trajopt/src/collision_terms.cpp CalcCollisions, GetGradient"), ("cost and constraint", "trajopt/src/collision_terms.cpp CollisionCost, CollisionConstraint"),
      ("cache", "trajopt/include/trajopt/cache.hxx")],
     MON + "a world of spheres in which every contact is known, contact managers that record what was checked, and the convex models minimised over their "
     "auxiliary variables, beside the real terms under ASan/UBSan",
     NOTE + "tesseract is not installed; the stand-in keeps its interface. Derivatives of swept revolute motions are compared up to the length of the motion. "
     "Known finding: results are stale when links of others move while the variables rest.")

prop("C25", "The problem trajopt constructs is the one its description asks for",
     "For every description of a planning problem, as JSON or as the structures behind it, trajopt either constructs the problem described or refuses with an "
     "exception; it never crashes or reads outside its data. The problem constructed has one variable per step and joint (and time step) with the limits given, "
     "the start asked for, exactly the steps and joints fixed that were listed, the solver named, and for every term in the order given the costs and "
     "constraints it stands for: name, kind, steps, coefficients, tolerances, values at any trajectory. Parameters left out have their documented defaults; "
     "unknown fields, missing sections, steps, joints or links that do not exist, and wrong sizes are refused. Optimising it keeps limits and fixed variables, "
     "and the result reports the costs and violations of the trajectory it returns.",
     ["inputs", "configurations"],
     "every number of steps and joints, start, set of fixed steps and joints, combination and order of terms, optional parameter, and fault",
     "The tests of this part need tesseract and solve a few fixed problems, most of which would still be solved if a term had a wrong step range, weight, name or default.",
     ["trajopt/src/problem_description.cpp", "trajopt/include/trajopt/problem_description.hpp", "trajopt/src/json_marshal.cpp", "trajopt/include/trajopt/json_marshal.hpp"],
     [("reading", "trajopt/src/problem_description.cpp ProblemConstructionInfo::fromJson, TermInfo::fromJson"),
      ("construction", "trajopt/src/problem_description.cpp ConstructProblem, generateInitTraj, TrajOptProb"), ("terms", "trajopt/src/problem_description.cpp TermInfo::hatch"),
      ("optimisation", "trajopt/src/problem_description.cpp OptimizeProblem, TrajOptResult")],
     MON + "descriptions generated together with what they say; variables, limits, start, fixed variables (through the solver's projection), names, kinds, "
     "dependencies and values compared, sixty kinds of fault, under ASan/UBSan",
     NOTE + "tesseract and the solvers are stand-ins that keep their interfaces. A collision term is compared with collision costs and constraints made by hand (C24 judges those).")

prop("C26", "Callbacks show and record exactly the iterate, and do not disturb the run",
     "For every problem (with and without time variables, every kind and number of terms, environments with other joints) and every history of calls, the "
     "callbacks of both optimizers show and record the iterate they are called at. Plotting clears the screen, draws every cost and constraint that can be "
     "drawn (frames and arrow of pose terms in the world, contacts of collision costs and constraints), one state per step with the manipulator's joint names "
     "and that step's joint values, then waits. The file writer's header names the joints, costs and constraints, and each call appends, before it returns, one row "
     "per step with the values, the pose of every link there, and the cost and violation values. No callback changes the variables or results, stops the run or "
     "refers to things its caller has let go; a run with them ends as it does without.",
     ["inputs", "histories", "configurations"],
     "every problem, iterate, number and order of callbacks and calls",
     "No test checks what callbacks show or write; they are only attached, and only where tesseract and a screen exist.",
     ["trajopt/src/plot_callback.cpp", "trajopt/src/file_write_callback.cpp", "trajopt/include/trajopt/typedefs.hpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/joint_state_plotter.cpp",
      "trajopt_optimizers/trajopt_sqp/src/callbacks/cartesian_error_plotter.cpp", "trajopt_optimizers/trajopt_sqp/src/callbacks/clear_plotter.cpp",
      "trajopt_optimizers/trajopt_sqp/src/callbacks/wait_for_input.cpp", "trajopt_ifopt/src/utils/trajopt_utils.cpp"],
     [("plotting", "trajopt/src/plot_callback.cpp PlotCosts, PlotProbCallback"), ("writing", "trajopt/src/file_write_callback.cpp WriteFile, WriteCallback"),
      ("trajopt_sqp", "trajopt_optimizers/trajopt_sqp/src/callbacks")],
     MON + "a recording screen and the written file, re-read after every call, compared with the iterate and with kinematics of their own; runs with and without "
     "callbacks compared, under ASan/UBSan",
     NOTE + "tesseract is not installed; the stand-in keeps its interface. CollisionPlottingCallback is documented as not implemented. The pose columns of the file's "
     "header do not match its rows (every link has a labelled pose); only the labelled poses are judged.")

prop("C27", "Collision settings are kept, compared, stored and read as they were given",
     "For every history of settings, link names and values: a pair's coefficient is the last one set for the two links in whichever order, else the default; the listed pairs and "
     "zero pairs are exactly those set; copies are independent, and threads with tables of their own, or only reading one, do not disturb each other. Two settings are "
     "equal exactly if every part is (doubles up to rounding), however they came about. Writing settings as YAML (node or text) or into an archive (binary, "
     "portable, JSON, XML) and reading them back, also over others, gives equal settings; YAML by hand is read by its names (also the legacy name of the buffer) in any order, "
     "what is left out keeps its default, what is malformed is refused. A set of contact errors reports the true maximum of each link, end and "
     "kind, and throws if there is none.",
     ["inputs", "histories", "schedules"],
     "every order of settings, every names, values, text and archive, every set of contacts, all schedules of readers",
     "The tests, which are not even built here, store three settings with simple names and one zero pair.",
     ["trajopt_common/src/collision_types.cpp", "trajopt_common/include/trajopt_common/collision_types.h",
      "trajopt_common/include/trajopt_common/yaml_extensions.h", "trajopt_common/include/trajopt_common/cereal_serialization.h"],
     [("coefficients", "trajopt_common/src/collision_types.cpp CollisionCoeffData"), ("YAML", "trajopt_common/include/trajopt_common/yaml_extensions.h convert"),
      ("archives", "trajopt_common/include/trajopt_common/cereal_serialization.h serialize"), ("maxima", "trajopt_common/src/collision_types.cpp GradientResultsSet, LinkMaxError")],
     MON + "a model map kept beside the table over random histories, field-by-field comparison after every way of storing, maxima over the listed errors; "
     "readers under ThreadSanitizer",
     NOTE + "tesseract is not installed: its own settings are stored by stand-ins, and only what trajopt adds is judged. Coefficients between 0 and 0.01 are not drawn (up to 1e-6 counts as zero).")

prop("C28", "Plans made in several threads at once are the plans made alone",
     "Trajectory problems may be described (from JSON, also as the first ones of the process), constructed, evaluated, convexified and optimised "
     "with trajopt, and built, evaluated and solved with trajopt_ifopt and trajopt_sqp, in any number of threads at once, also on the same environment and "
     "manipulator, with terms of every kind: no data race, and every number (bounds, starts, values, violations, gradients, models, results, statuses) "
     "is bit for bit the one a single thread gets. One problem's costs and constraints evaluated and convexified by the multi-threaded optimizer are "
     "those of the single-threaded one. Each thread's clock is its own.",
     ["schedules", "inputs"],
     "every interleaving of the threads, every problem they work on",
     "The tests plan in one thread; scratch tables shared by all terms of a class go wrong only when two threads meet in one.",
     ["trajopt/src/problem_description.cpp", "trajopt/src/typedefs.cpp", "trajopt/src/kinematic_terms.cpp", "trajopt/src/collision_terms.cpp",
      "trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp", "trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp",
      "trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp", "trajopt_common/src/clock.cpp", "trajopt_sco/src/optimizers.cpp"],
     [("scratch tables of link poses", "trajopt/src/typedefs.cpp transforms_cache"), ("registry of terms", "trajopt/src/problem_description.cpp TermInfo::fromName"),
      ("scratch tables of constraints", "trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp transforms_cache_"), ("clock", "trajopt_common/src/clock.cpp StartClock")],
     MON + "ThreadSanitizer with injected delays, and bitwise comparison with the single-threaded outcome",
     NOTE + "Built from the working tree with ThreadSanitizer (every report fatal). The environment, kinematics and solvers are stand-ins that keep no state where "
     "threads share them; registering terms of one's own while others plan is not claimed.")
