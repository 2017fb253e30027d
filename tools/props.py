# Writes /verif/properties.jsonl (the properties are maintained here).
import json, os
N = "include/mpc/NLMPC/"
L = "include/mpc/LMPC/"
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


p("C01", "The optimal sequence and command are the trajectory found by the solver",
  "After a step of the nonlinear controller in which the solver returns a solution, getOptimalSequence() holds exactly that solution in physical units: state row 0 is the measured state, the other state rows and the inputs are the ones of the solver's decision vector, the input is held constant from the last step of the control horizon to the last row, and every output row is the output function of the state, input and index of that row (zero without an output function). The returned command is the first input row and getLastResult() equals the returned result.",
  ["inputs", "configurations", "histories"],
  "every problem size and horizon of the table, every scaling, every answer vector of the solver over a small alphabet, one to three consecutive steps",
  "The tests look at the command or at one closed loop with identity scaling; they never compare the whole sequence with what the solver returned, for other horizons, scalings or multi-input systems.",
  [N + "Mapping.hpp", N + "NLOptimizer.hpp", N + "Model.hpp"],
  [("unwrapVector", N + "Mapping.hpp"), ("run", N + "NLOptimizer.hpp"), ("getOutput", N + "Model.hpp")],
  ["Result::cmd", "getOptimalSequence()", "getLastResult()"])
p("C02", "The solver sees the user's objective and constraints at the right trajectory",
  "For every decision vector the solver asks about, the objective value and the user inequality and equality values it receives are the user's functions evaluated on the trajectory encoded by that vector (states with the measured state in row 0, outputs, inputs held after the control horizon, slack), whatever was evaluated before and whether or not derivatives are requested. The arguments handed to the user functions have ph+1 rows and nothing of a previous evaluation or step survives in them.",
  ["inputs", "configurations", "histories"],
  "every size of the table, decision vectors over a finite alphabet, every order of evaluating the functions at two points, consecutive steps with different measured states",
  "The tests evaluate the objective or a constraint once, at one point, with a handful of sizes.",
  [N + "Objective.hpp", N + "Constraints.hpp", N + "Mapping.hpp"],
  [("Objective::evaluate", N + "Objective.hpp"), ("evaluateIneq, evaluateEq", N + "Constraints.hpp")],
  ["values passed to the solver"])
p("C03", "The dynamics constraint vanishes exactly on trajectories of the model",
  "The state equality constraint given to the solver has one entry per state and step and is zero if and only if the decision vector is a trajectory of the state function: x(k+1) = f(x(k), u(k), k) for a discrete model, the trapezoidal rule x(k+1) = x(k) + Ts/2 (f(x(k),u(k),k) + f(x(k+1),u(k),k)) once a sampling time is set. Step 0 starts from the measured state of the current step and every residual is, up to a constant factor, the defect of one state at one step.",
  ["inputs", "configurations", "histories"],
  "discrete and continuous, every size of the table, scalings, nonlinear and step dependent state functions, trajectories and single-entry perturbations of them",
  "The tests check one residual of one system; step index, coupling between states and inputs, scaling and the last steps of the horizon are not covered.",
  [N + "Constraints.hpp", N + "Model.hpp"],
  [("getStateEqConstraints", N + "Constraints.hpp"), ("setContinuous", N + "Model.hpp")],
  ["values passed to the solver"])
p("C04", "The derivatives given to the solver are those of the values given to it",
  "For every decision vector, the gradient of the objective and the Jacobians of the state, user inequality and user equality constraints given to the solver are the derivatives of the corresponding values with respect to the decision variables, in the layout the solver expects, within finite difference accuracy. This includes the slack variable, the inputs held after the control horizon and the scaling.",
  ["inputs", "configurations"],
  "every size of the table, scalings, discrete and continuous models, nonlinear functions, a grid of evaluation points",
  "The tests compare one Jacobian at one point with identity scaling and hard constraints; a wrong derivative only makes the solver slower or less precise, which tests with tolerances hide.",
  [N + "Objective.hpp", N + "Constraints.hpp"],
  [("computeJacobian", N + "Objective.hpp"), ("computeIneqJacobian, computeEqJacobian, computeStateEqJacobian, glueJacobian", N + "Constraints.hpp")],
  ["gradients passed to the solver"])
p("C05", "State and input bounds reach the solver as last set, nothing else changes",
  "At every step of the nonlinear controller the solver's bounds are, in physical units and per horizon step, those of the last accepted setStateBounds / setInputBounds call which covers that step (the input bounds of the last control step hold to the end of the horizon); steps never covered are unbounded. A rejected call, and setting anything else, changes no bound; output bounds are refused with an exception.",
  ["histories", "configurations", "inputs"],
  "every sequence of up to three setter calls over matrices, all-horizon and slice forms, valid and invalid slices, scaling and parameter changes interleaved, several sizes",
  "The tests set bounds once and look at the solver's vector for one form; overlapping slices, rejected calls and their interplay with scaling and parameters are histories they do not sample.",
  [N + "NLOptimizer.hpp", "include/mpc/NLMPC.hpp"],
  [("setStateBounds, setInputBounds, updateBounds", N + "NLOptimizer.hpp")],
  ["bounds of the solver"])
p("C06", "A horizon slice is accepted exactly when it lies inside its horizon",
  "Every setter with a HorizonSlice, on both controllers, accepts the slice [start, end) if and only if it is HorizonSlice::all() or 0 <= start < end <= length of its horizon (control horizon for input bounds, prediction horizon otherwise). It returns true and applies to exactly the steps of the slice when accepted, returns false and changes nothing otherwise; setters by index accept exactly 0 <= index < ph.",
  ["inputs", "configurations"],
  "every (start, end) in a range larger than the horizon, every setter, several horizons of both controllers",
  "The tests try one or two slices; the predicate is over every pair of bounds for every setter.",
  ["include/mpc/IMPC.hpp", "include/mpc/NLMPC.hpp", "include/mpc/LMPC.hpp"],
  [("isSliceUnset, isPredictionHorizonSliceValid, isControlHorizonSliceValid", "include/mpc/IMPC.hpp")],
  ["return value of the setters", "problem given to the solver"])
p("C07", "Every outcome of the nonlinear solver is reported faithfully",
  "For every return code of the nonlinear solver the step completes without an exception and the result reports it: a code with a solution gives the solver's code and optimum as solver_status and cost with status SUCCESS or MAX_ITERATION (evaluation or time limit); a failure gives status ERROR, solver_status -1, infinite cost, is_feasible false, the command of the previous step (zero at the first) and a zero sequence. A later successful step is unaffected by earlier failures.",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of up to four solver outcomes over all the return codes, with warm start on and off",
  "The tests never make the solver fail, let alone in sequences.",
  [N + "NLOptimizer.hpp"],
  [("run, convertToResultStatus", N + "NLOptimizer.hpp")],
  ["Result", "getOptimalSequence()"])
p("C08", "Cold and warm starts begin where documented, always inside the bounds",
  "Without warm start, or before the first solution, the solver starts from the measured state and the last input repeated along the horizon with zero slack; with warm start it starts from the last solution shifted by one step (last states and inputs repeated, slack kept). The point is clamped into the bounds, is expressed in the scaled variables of the solver, and a failed step leaves the solution used for the next warm start unchanged.",
  ["histories", "configurations", "fault_sequences", "inputs"],
  "every history of up to four steps over answers, failures, warm start switches and bounds, several sizes and scalings",
  "The starting point is not observable through the API and the tests only see that the solver converges anyway.",
  [N + "NLOptimizer.hpp"],
  [("run", N + "NLOptimizer.hpp"), ("Iu2z, Iz2u", N + "Mapping.hpp")],
  ["starting point given to the solver"])
p("C09", "is_feasible tells whether the solution satisfies the user constraints",
  "When the solver returns a solution, is_feasible is true if and only if every user inequality is at most its tolerance and every user equality is within its tolerance of zero on the returned trajectory, with the slack of the solution. A controller without user constraints reports a feasible solution and a constraint which evaluates to NaN is not satisfied.",
  ["inputs", "configurations", "histories"],
  "every combination of constraint values below, at, above and far above the tolerance or NaN in every position, with either, both or no constraint function, several tolerances",
  "The tests only see feasible problems and default tolerances.",
  [N + "Constraints.hpp", N + "NLOptimizer.hpp"],
  [("isFeasible", N + "Constraints.hpp")],
  ["Result::is_feasible"])
p("C10", "The last optimizer parameters are the ones in force",
  "The tolerances, iteration limit and time limit used by the nonlinear solver, the hard or soft use of the slack variable, and the warm start are those of the last setOptimizerParameters call (or the documented defaults), in any order with the other setters. In particular a non positive time limit means no limit, hard constraints force the slack to zero and soft ones leave it free.",
  ["histories", "configurations"],
  "every sequence of up to three parameter sets over an alphabet which changes each field, interleaved with steps and other setters",
  "The tests set parameters once per controller; the effect of replacing them is a history.",
  [N + "NLOptimizer.hpp", "include/mpc/Types.hpp"],
  [("setParameters", N + "NLOptimizer.hpp")],
  ["options and bounds of the solver"])
p("C11", "Configuration order is irrelevant and redefinition replaces",
  "The problem the nonlinear solver receives depends only on the last value given for each configuration item (functions, tolerances, bounds, scaling, parameters, sampling time), not on the order of the calls nor on values they replaced. Setting a function again replaces the previous one, keeps the other functions in force and uses the new tolerance.",
  ["histories", "configurations"],
  "every permutation of the configuration calls and every insertion of an earlier redefinition, with and without steps in between",
  "The tests configure in one order and never configure twice.",
  [N + "NLOptimizer.hpp", "include/mpc/NLMPC.hpp"],
  [("bindObjective, bindEq, bindUserIneq, bindUserEq, bindEqualities", N + "NLOptimizer.hpp")],
  ["problem given to the solver"])
p("C12", "The nonlinear controller solves its optimal control problem",
  "On problems with a known optimum (linear model, convex quadratic objective, bounds, linear user constraints and soft constraints) the nonlinear controller with its real solver returns status SUCCESS, a feasible result, and a sequence which satisfies the dynamics, the bounds and the constraints and attains the optimal cost, from every start. Closed loop steps with warm start agree with cold starts.",
  ["inputs", "configurations", "histories"],
  "a grid of problems (sizes, horizons, bounds, constraints, scalings, continuous and discrete) and measured states, checked against an exact quadratic program solution",
  "The tests run two closed loops and check one or two numbers each.",
  ["include/mpc/NLMPC.hpp", N + "NLOptimizer.hpp", N + "Objective.hpp", N + "Constraints.hpp", N + "Mapping.hpp"],
  [("optimize", "include/mpc/IMPC.hpp")],
  ["Result", "getOptimalSequence()"])
p("C13", "Controllers are independent of each other",
  "Any interleaving of configuration and optimisation calls on several controllers, linear or nonlinear, of the same or of different sizes, gives each of them the results it gives when used alone. Destroying one controller does not affect the others.",
  ["schedules", "histories"],
  "every interleaving of the call sequences of two controllers",
  "One test uses two linear controllers in one order and is not built without OSQP.",
  ["include/mpc/NLMPC.hpp", "include/mpc/LMPC.hpp", "include/mpc/IDimensionable.hpp", "include/mpc/IComponent.hpp"],
  [("no shared mutable state besides the logger", "include/mpc/IComponent.hpp")],
  ["Result", "problem given to the solver"])
p("C14", "Static and dynamic sizes give the same controller",
  "A nonlinear controller with compile time sizes and one with the same sizes given at run time receive the same configuration calls and steps with the same outcome: same problems given to the solver, same starting points, bounds, derivatives and results. The same holds for the linear controller.",
  ["configurations", "inputs", "histories"],
  "every size of the table of both controllers, the same configuration and solver answers on both, with scaling, bounds, constraints, warm start",
  "The tests run the same fixed cases in the two modes with equal hand written expectations; sizes like one, zero constraints or ch = ph in dynamic mode are not covered.",
  ["include/mpc/IDimensionable.hpp", "include/mpc/Dim.hpp", "include/mpc/Types.hpp"],
  [("COND_RESIZE", "include/mpc/Types.hpp"), ("setDimension", "include/mpc/IDimensionable.hpp")],
  ["problem given to the solver", "Result"])
p("C15", "Scaling changes the solver's variables, never the meaning of the problem",
  "With any positive state and input scaling the physical quantities seen by the user functions, the bounds, starting points, constraint satisfaction, command and sequences are those of the unscaled controller; only the solver's variables are divided by the scaling. Scaling set before or after the rest of the configuration, or twice, has the effect of the last value.",
  ["configurations", "histories", "inputs"],
  "scalings including non powers of two, per component, several sizes, every position of the scaling calls in the configuration, answers of the solver over an alphabet",
  "The tests use scaling in at most one fixed setting and never compare with the unscaled controller.",
  [N + "Mapping.hpp", N + "NLOptimizer.hpp", N + "Constraints.hpp", N + "Objective.hpp"],
  [("setStateScaling, setInputScaling", N + "Mapping.hpp")],
  ["problem given to the solver", "Result"])
p("C16", "An exception of a user function fails the step and nothing more",
  "If the state, output, objective or constraint function throws, at whichever of its invocations during a step, the step returns with status ERROR, is_feasible false and the previous command; no exception escapes. The next step behaves as if the failed one had been any other failure and no memory is lost or corrupted.",
  ["fault_sequences", "histories"],
  "a throw at the k-th invocation of any user function, for every k up to the number of invocations of the step, with the real solver, followed by a good step",
  "No test throws from a user function.",
  [N + "NLOptimizer.hpp"],
  [("run", N + "NLOptimizer.hpp")],
  ["Result", "getOptimalSequence()"])
p("C17", "The quadratic cost of the linear controller is the documented objective",
  "For every trajectory of the model, the cost given to the solver differs from half the documented objective (weighted squared distance of outputs, inputs and input increments from their references at every step, with outputs including the measured disturbances) by a constant and a positive factor only. Weight and reference given for a horizon step act on the output at the next step and on the input and increment of that step (the initial output uses the first column).",
  ["inputs", "configurations"],
  "every size of the table, weights and references with a distinct value per step and component, disturbances, basis and mixed input sequences",
  "The linear controller is not built without OSQP and its tests check the first command of a few problems.",
  [L + "ProblemBuilder.hpp", L + "LOptimizer.hpp"],
  [("buildTimeInvariantTems, get", L + "ProblemBuilder.hpp")],
  ["problem given to the solver"])
p("C18", "The linear equality constraints are exactly the model's dynamics",
  "A vector satisfies the equality rows given to the linear solver if and only if it is a trajectory x(k+1) = A x(k) + B u(k) + Bd d(k), u(k) = u(k-1) + du(k), from the measured state and the last applied input, with the measured disturbance of each step; the reported sequence contains that trajectory and y(k) = C x(k) + Dd d. A new state, input, disturbance or model takes effect at the next step.",
  ["inputs", "configurations", "histories"],
  "every size of the table, input increments over a basis, disturbances distinct per step, changes of model and disturbances between steps",
  "Disturbances along the horizon are not covered by any test that is built.",
  [L + "ProblemBuilder.hpp", L + "LOptimizer.hpp"],
  [("setStateModel, setExogenousInput, get", L + "ProblemBuilder.hpp"), ("run", L + "LOptimizer.hpp")],
  ["problem given to the solver", "getOptimalSequence()"])
p("C19", "Linear state, output and input bounds hold at the steps they are given for",
  "A trajectory of the linear model satisfies the inequality rows given to the solver if and only if every state, output (including disturbances) and input lies between the bounds set for its step: state and output bounds of step k apply at k+1 (and step 0's also at the initial state), input bounds of step k to u(k), the last input bounds of the control horizon to the rest of it. What is not bounded is unconstrained.",
  ["inputs", "configurations", "histories"],
  "every size of the table, every component and step just inside and just outside each bound, matrix, slice and index forms",
  "No test that is built covers the bounds of the linear controller.",
  [L + "ProblemBuilder.hpp", "include/mpc/LMPC.hpp"],
  [("setStateBounds, setInputBounds, setOutputBounds, buildTimeInvariantTems", L + "ProblemBuilder.hpp"), ("setConstraints", "include/mpc/LMPC.hpp")],
  ["problem given to the solver"])
p("C20", "The linear command is held after the control horizon",
  "The problem given to the linear solver admits only input sequences which are constant from the last step of the control horizon on, and leaves the increments up to there free. The reported input sequence is u(0..ph-1) with the last row repeated and the command is its first row.",
  ["configurations", "inputs"],
  "every pair ch <= ph of the table, every single increment",
  "The tests which are built do not cover the linear controller; the others use one horizon.",
  [L + "ProblemBuilder.hpp", L + "LOptimizer.hpp"],
  [("buildTimeInvariantTems", L + "ProblemBuilder.hpp"), ("run", L + "LOptimizer.hpp")],
  ["problem given to the solver", "getOptimalSequence()"])
p("C21", "The linear scalar constraint binds state and command of the same step",
  "With a scalar constraint min <= X'x + U'u <= max, a trajectory satisfies the rows given to the solver if and only if the combination of x(k) and u(k) lies in the interval given for step k (the interval of step k applies at k+1, step 0's also at the initial step; the command of the last row is the held one). The multipliers last given apply to every step and steps without an interval are unconstrained.",
  ["inputs", "configurations", "histories"],
  "every size of the table, every step just inside and just outside, slice, index and all-horizon forms",
  "No test that is built covers it.",
  [L + "ProblemBuilder.hpp", "include/mpc/LMPC.hpp"],
  [("setScalarConstraint, setScalarMultipliers", L + "ProblemBuilder.hpp")],
  ["problem given to the solver"])
p("C22", "The linear problem depends only on the last value set for each item",
  "After any sequence of calls to the setters of the linear controller (model, disturbances, exogenous inputs, references, weights, bounds, scalar constraint, in matrix, slice or index form, valid or rejected), with steps in between, the problem given to the solver equals that of a fresh controller configured once with the last accepted value of every item and step. Scaling and sampling time are refused with an exception.",
  ["histories", "configurations"],
  "every sequence of up to three setter calls from an alphabet of all the setters and forms, with and without a step in between",
  "A product of setters and orders; the tests set each once.",
  [L + "ProblemBuilder.hpp", L + "LOptimizer.hpp", "include/mpc/LMPC.hpp"],
  [("setters", "include/mpc/LMPC.hpp"), ("buildTimeInvariantTems", L + "ProblemBuilder.hpp")],
  ["problem given to the solver"])
p("C23", "Every outcome of the linear solver is reported faithfully, never as NaN",
  "For every status of the linear solver, and every refusal or failure of its setup, the step completes and reports it: SUCCESS for solved (also inaccurately), MAX_ITERATION for the iteration or time limit, INFEASIBLE for the infeasibility certificates, ERROR for an interrupted, non convex or failed solve. Whenever there is no solution the command is the previous one (zero at first), is_feasible is false, the cost infinite and the sequence zero; no NaN reaches the command, the sequence or the next warm start.",
  ["fault_sequences", "histories"],
  "every sequence of up to three outcomes over all the statuses and setup failures, with warm start on and off",
  "The tests never make the linear solver fail.",
  [L + "LOptimizer.hpp"],
  [("run, convertToResultStatus, setInvalidResult, hasSolution", L + "LOptimizer.hpp")],
  ["Result", "getOptimalSequence()"])
p("C24", "Linear solver settings and warm start are the ones requested",
  "The settings the linear solver is given are those of the last setOptimizerParameters call (or the documented defaults), and it is warm started exactly when warm start is enabled and a point is available: the primal and dual solution of the last step with a solution, or the one given with setSolverWarmStart, which getSolverWarmStartPrimal and Dual return unchanged. Otherwise it starts cold.",
  ["histories", "configurations", "fault_sequences"],
  "every sequence of up to four operations over parameter changes, steps with every kind of outcome and warm start assignments",
  "The tests do not observe the settings nor the starting point of the solver.",
  [L + "LOptimizer.hpp", "include/mpc/LMPC.hpp", "include/mpc/Types.hpp"],
  [("setParameters, run", L + "LOptimizer.hpp"), ("setSolverWarmStart", "include/mpc/LMPC.hpp")],
  ["settings and starting point of the solver"])
p("C25", "The linear program given to the solver is well formed",
  "For every configuration the solver receives finite, dimensionally consistent data: a symmetric positive semidefinite quadratic term (nonnegative weights) passed as its upper triangle, sorted compressed columns, lower bounds not above upper bounds whenever the user's bounds are consistent, and a constraint matrix of the same structure at every step. The solver never refuses such a problem.",
  ["configurations", "inputs", "histories"],
  "every size of the table, combinations of weights including zeros, bounds including equal ones, disturbances, consecutive steps",
  "No test that is built reaches the code which builds the sparse matrices.",
  [L + "LOptimizer.hpp", L + "ProblemBuilder.hpp"],
  [("createOsqpSparseMatrix, getSparse", L + "LOptimizer.hpp")],
  ["problem given to the solver"])
p("C26", "Execution statistics summarise exactly the steps since the last reset",
  "getExecutionStats() counts the steps since the last reset, with the total, minimum, maximum, average and (population) standard deviation of their durations and one count per result status of those steps; the counts add up to the number of steps. resetStats() (and a new controller) starts from zero and the statistics do not depend on earlier steps.",
  ["histories"],
  "every sequence of up to five operations over steps with durations and statuses from an alphabet, resets and reads, with a controlled clock",
  "The tests use sleeps and one sequence; the standard deviation and the counts of other statuses are not covered.",
  ["include/mpc/Profiler.hpp", "include/mpc/IMPC.hpp"],
  [("solutionStart, solutionEnd, getStats, reset", "include/mpc/Profiler.hpp")],
  ["getExecutionStats()"])
p("C27", "The logger prints exactly the enabled messages",
  "A message appears on the configured stream if and only if its type is enabled by the level in force when it is logged, once, complete, in order, with the prefix in force in front. Reset restores the default level and prefix and keeps the stream, and messages which are not enabled leave no trace in later ones.",
  ["histories"],
  "every sequence of up to four operations over levels, prefixes, streams, reset and messages of every type",
  "The tests check single operations.",
  ["include/mpc/Logger.hpp"],
  [("log, setLevel, setPrefix, setStream, reset", "include/mpc/Logger.hpp")],
  ["the stream"])
p("C28", "Discretisation is the exact zero order hold of the continuous model",
  "discretization() returns, for every A, B and sampling time, Ad = exp(A Ts) and Bd = integral of exp(A t) B over a sampling period (also for singular A), and likewise the disturbance matrices, with the output feedforward unchanged. Discretising with a period T and stepping twice equals discretising with 2T and stepping once with a held input.",
  ["inputs", "configurations"],
  "all matrices with entries in a small alphabet up to order three, several periods",
  "One test, one system.",
  ["include/mpc/Utils.hpp"],
  [("discretization", "include/mpc/Utils.hpp")],
  ["output matrices"])
p("C29", "The integrator is the classical fourth order Runge-Kutta scheme",
  "RK4 integration is exact (to rounding) for fields of which the solution is a polynomial in time up to degree four, has the classical stability polynomial on linear systems, applies the given number of substeps with the time advancing, and leaves the initial state it is given unchanged. Integrating in two calls equals integrating in one with the same substeps.",
  ["inputs", "configurations"],
  "polynomial and linear fields with coefficients from an alphabet, systems up to order three, substeps one to four",
  "The integrator has no test of its own.",
  ["include/mpc/Integrator.hpp"],
  [("integrate", "include/mpc/Integrator.hpp")],
  ["integrated state"])
p("C30", "Dimension arithmetic is exact and propagates the dynamic marker",
  "Sums, differences and products of dimensions and integers, in either order, equal those of the integers, and any of them with a dynamic operand is dynamic; conversion to an integer gives the value. The sizes of a problem keep the values they are built from, in their own place.",
  ["inputs"],
  "every pair of values in a range including zero and dynamic, every operator",
  "Only the instances which the compiled tests happen to use.",
  ["include/mpc/Dim.hpp", "include/mpc/IDimensionable.hpp"],
  [("operators of Size", "include/mpc/Dim.hpp")],
  ["values of the operators"])
p("C31", "No call sequence corrupts or leaks memory",
  "Any valid sequence of construction, configuration, reconfiguration, steps with successful or failed solves, queries and destruction of linear and nonlinear controllers, static or dynamic, reads only initialised memory inside its objects, frees everything exactly once and leaves nothing behind.",
  ["histories", "fault_sequences", "configurations"],
  "every sequence of up to three operations after construction, over all the setters, outcomes of the solver and exceptions, under address, leak and undefined behaviour checks",
  "The tests run without sanitizers and the linear controller is not built at all.",
  ["include/mpc/NLMPC.hpp", "include/mpc/LMPC.hpp", L + "LOptimizer.hpp", N + "NLOptimizer.hpp"],
  [("destructors, clearData, initData", L + "LOptimizer.hpp")],
  ["sanitizer reports", "allocations of the solver data"])
p("C32", "The linear controller returns the optimum of its problem",
  "With an exact solver behind it the linear controller returns, for every measured state, the command and sequence which minimise the documented objective subject to the model, the bounds, the control horizon and the scalar constraint, and reports INFEASIBLE exactly when no input sequence is admissible. Closed loop steps use the current state, last input, references and disturbances only.",
  ["inputs", "configurations", "histories"],
  "a grid of small problems and measured states, closed loop of up to three steps, against an independent enumeration of active sets in the condensed problem",
  "The linear controller is not built without OSQP; its tests check a few first commands.",
  [L + "ProblemBuilder.hpp", L + "LOptimizer.hpp", "include/mpc/LMPC.hpp"],
  [("optimize", "include/mpc/IMPC.hpp")],
  ["Result", "getOptimalSequence()"])
p("C33", "The Python module drives the same controllers",
  "Every method, constructor, parameter, result field and constant which the Python module exports for NLMPC and LMPC does what its C++ counterpart does: sizes are taken in the same order, both forms of every setter reach the controller with all their arguments, user functions receive the trajectories, the input, the step index and the slack, their tolerances and parameters reach the optimizer, and results, sequences, statistics and warm start vectors are those of the controller.",
  ["histories", "configurations", "inputs"],
  "every sequence of up to three calls and a step on a nonlinear and two calls and two steps on a linear controller, every parameter on its own, every log level, compared with the same calls on a C++ controller",
  "The module is not built without pybind11 and has no test.",
  ["python/pybind_export.cpp"],
  [("expose_NLMPC, expose_LMPC", "python/pybind_export.cpp")],
  ["values and exceptions of the calls of the module", "the problem given to the solver"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
