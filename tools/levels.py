NL = "Exhaustive within the stated bounds on the real, compiled code of /repo; the numerical solver (NLopt) is replaced at link level by the harness, which records the problem it is given and answers every alternative of a finite alphabet. Trusts the explorer, the compiler and the specification in the harness; values are compared up to 1e-6..1e-9."
REAL = "Exhaustive over the stated grid on the real, compiled code of /repo with the real NLopt; the oracle is an exact active set enumeration. Trusts NLopt's convergence on these convex problems (a tolerance of 1e-3)."
LI = "Exhaustive within the stated bounds on the real, compiled code of /repo; OSQP (not installed here) is replaced by a stand-in with the same interface and argument validation which records the quadratic program and answers every alternative of a finite alphabet. Trusts the stand-in, the explorer and the specification in the harness; values are compared up to 1e-6..1e-9."
S = "stateless exhaustive exploration of the real code"
def _(s): return S + ": " + s
T = {
 'C01': (_("every scaling, solver answer and short history per size; sequence compared with the solver's vector"), NL),
 'C02': (_("every order of evaluation requests of the solver; values compared with the user functions on the decoded trajectory"), NL),
 'C03': (_("trajectories and every single-entry perturbation; residuals compared with the model's defects"), NL),
 'C04': (_("grid of evaluation points; derivatives compared with differences of the values seen by the solver"), NL),
 'C05': (_("every sequence of setter calls to a depth; solver bounds compared with a reference model of the setters"), NL),
 'C06': (_("every slice and index on every setter; acceptance and effect compared with the specification"), NL + " " + LI),
 'C07': (_("every sequence of solver outcomes (fault enumeration) to a depth"), NL),
 'C08': (_("every history of steps, outcomes and warm start switches to a depth; starting points compared with a reference model"), NL),
 'C09': (_("every combination of constraint values around the tolerance in every position"), NL),
 'C10': (_("every sequence of parameter sets to a depth; solver options compared with a reference model"), NL),
 'C11': (_("every permutation and redefinition of the configuration calls; problems compared with the canonical configuration"), NL),
 'C12': (_("grid of convex problems through the real solver, compared with exact active set enumeration"), REAL),
 'C13': (_("every interleaving of the call sequences of two controllers, compared with each one alone"), NL + " " + LI),
 'C14': (_("the same histories to a depth on a static and a dynamic controller, compared step by step"), NL + " " + LI),
 'C15': (_("every scaling and position of the scaling calls, compared in physical units with the unscaled controller"), NL),
 'C16': (_("a throw at every invocation of every user function of a step (fault enumeration)"), NL),
 'C17': (_("configurations over an alphabet and all sizes; quadratic forms compared on a basis of trajectories"), LI),
 'C18': (_("configurations, states and changes between steps; the affine solution set of the equality rows compared with the model's trajectories"), LI),
 'C19': (_("setter forms and bound patterns; half-spaces of the solver's rows compared with the specified ones"), LI),
 'C20': (_("every pair of horizons and single increments; admissible input sequences compared with the specification"), LI),
 'C21': (_("slice, index and all-horizon forms; half-spaces of the solver's rows compared with the specified ones"), LI),
 'C22': (_("every sequence of setter calls and steps to a depth, compared with a fresh canonical controller"), LI),
 'C23': (_("every sequence of solver outcomes and setup failures (fault enumeration) to a depth"), LI),
 'C24': (_("every sequence of parameter changes, outcomes and warm start assignments to a depth against a reference model"), LI),
 'C25': (_("configurations over an alphabet; validation of the quadratic program at every step"), LI),
 'C26': (_("every sequence of steps, resets and reads to a depth under a controlled clock, against a reference model"), "Exhaustive within the stated bounds on the real code with an interposed clock. Trusts the reference model."),
 'C27': (_("every sequence of logger operations to a depth, against a reference model"), "Exhaustive within the stated bounds on the real code. Trusts the reference model."),
 'C28': (_("all matrices over a small alphabet, compared with an extended precision exponential and the semigroup law"), "Exhaustive over the stated finite grid of inputs; trusts the independent long double exponential."),
 'C29': (_("all polynomial and linear fields over a small alphabet, compared with the classical scheme"), "Exhaustive over the stated finite grid of inputs; trusts the independent implementation of the scheme."),
 'C30': (_("every pair of values in a range and every operator"), "Exhaustive over the stated range of values."),
 'C31': (_("every call sequence to a depth under address, leak and undefined behaviour sanitizers (fault enumeration)"), "Exhaustive within the stated bounds on the real code with sanitizers as monitors; the linear solver is a stand-in which checks its workspaces are released."),
 'C32': (_("closed loops over a grid of problems with an exact solver in the loop, compared with active set enumeration of the condensed problem"), LI),
 'C33': (_("every history of calls to a depth, given to a controller directly and through the Python module"), "Exhaustive within the stated bounds on the real bindings (python/pybind_export.cpp), compiled against a stand-in of pybind11 (not installed here) which dispatches overloads and converts arguments as pybind11 does; both solvers are replaced by the harness. Trusts the stand-in."),
}
NA = {}
