#!/usr/bin/env python3
"""Single source of properties.jsonl (kept as code only to keep the JSON lines readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


I, S, T = "include/crocoddyl/core/", "src/core/solvers/", ""
MB = "include/crocoddyl/multibody/"
NOTEST = "The runnable tests (box-QP and control-parametrisation unit tests) do not execute this code at all; "


CORE = "src/core/"
p("C01", "A solver's reported cost and feasibility are those of its stored trajectory",
  "Whenever a solver iteration completes, the cost it reports equals the total cost obtained by evaluating the problem on the state and control trajectories it stores, and if it reports the trajectory as feasible then that trajectory starts at the problem's initial state and every next state is exactly what the dynamics give. The dynamics, inequality and equality violation figures it computes are the chosen norm (largest component, or sum of absolute values) of the gaps and of the bound and equality violations over all nodes including the terminal one, taken on the trajectory the iteration's derivatives were computed on. The answer `true` is returned only from a feasible iterate whose stopping measure is below the threshold. (A solve limited to zero iterations reports no cost; the KKT solver's claims of feasibility are a recorded finding.)",
  ["inputs", "histories", "configurations"],
  "all gradient-based solvers x problem shapes (with and without controls, mixed control dimensions, constraints) x initial guesses (absent, infeasible, feasible) x iteration limits x both norms",
  NOTEST + "the upstream solver tests look at the end of one converged solve per problem and never recompute the reported figures.",
  [I + "solver-base.hpp", CORE + "solver-base.cpp", S + "ddp.cpp", S + "fddp.cpp", S + "box-ddp.cpp", S + "box-fddp.cpp", S + "intro.cpp"],
  [("setCandidate / tryStep / forwardPass", S + "ddp.cpp"), ("computeDynamicFeasibility, computeInequalityFeasibility, computeEqualityFeasibility", CORE + "solver-base.cpp")],
  ["get_xs/get_us/get_cost/get_is_feasible", "ShootingProblem::calc, rollout"])

p("C02", "Every solver solves linear-quadratic problems exactly",
  "For every convex linear-quadratic optimal-control problem without active limits, each solver (DDP, FDDP, box variants, null-space/equality, full KKT) started from any guess reaches the unique minimiser of the equivalent dense quadratic program, with the matching cost, and reports convergence. This holds for any horizon, initial state, and control dimension per node, including nodes without controls.",
  ["inputs", "configurations"],
  "solvers x horizons 1..4 x control dimensions per node in {0,1,2} x cost/dynamics families x initial guesses",
  NOTEST + "upstream compares a handful of random problems with one fixed dimension per problem.",
  [S + "ddp.cpp", S + "fddp.cpp", S + "box-ddp.cpp", S + "box-fddp.cpp", S + "intro.cpp", S + "kkt.cpp"],
  [("backwardPass, computeGains, forwardPass", S + "ddp.cpp"), ("computePrimalDual", S + "kkt.cpp")],
  ["solve() result, get_xs, get_us, get_cost"])

p("C03", "Box solvers never leave the control limits and find the constrained optimum",
  "With control limits enabled, every control the box-constrained solvers try or store (other than a guess that no step has replaced yet) lies within the node's lower and upper limits, exactly. On convex linear-quadratic problems the solution reported as converged satisfies the first-order optimality conditions of the limited problem; Box-DDP reaches it from every guess, Box-FDDP from every feasible one (a guess said to be feasible having controls within the limits). When no limit is active they agree with their unconstrained counterparts.",
  ["inputs", "configurations"],
  "box solvers x limit patterns (none, one-sided, two-sided, equal, partly infinite) x control dimensions per node x initial guesses inside and outside the limits",
  NOTEST + "the box-QP unit tests never run a box solver over a horizon.",
  [S + "box-ddp.cpp", S + "box-fddp.cpp", S + "box-qp.cpp", I + "action-base.hxx"],
  [("computeGains with the box-QP and clamping in forwardPass", S + "box-ddp.cpp"), ("set_u_lb/set_u_ub/has_control_limits", I + "action-base.hxx")],
  ["get_us", "data seen by the action models"])

p("C04", "A line search accepts only sufficient decrease and cost never increases",
  "In every iteration the step lengths are tried in the configured order and the first one that satisfies the documented acceptance test is taken, and if none does the stored trajectory and its cost are left exactly as they were. Started from a feasible guess, the cost reported by the shooting solvers DDP, FDDP, Box-DDP and Box-FDDP never increases from one iteration to the next beyond what their acceptance test allows, and after an accepted step the reported expected and actual reductions are those of that step.",
  ["inputs", "histories"],
  "solvers x non-convex action models x step-length lists x acceptance thresholds x guesses, judged at every callback",
  NOTEST + "upstream has no test of step acceptance.",
  [S + "ddp.cpp", S + "fddp.cpp", S + "intro.cpp"],
  [("acceptance test in solve", S + "ddp.cpp"), ("acceptance test with ascent allowance", S + "fddp.cpp"), ("merit acceptance", S + "intro.cpp")],
  ["CallbackAbstract invocations; calls received by user action models"])

p("C05", "Regularisation, callbacks and termination follow one state machine",
  "The regularisation starts at the given value or, when none is given, at its minimum, is multiplied by the increase factor exactly when a direction cannot be computed or the step is too short, divided by the decrease factor exactly when the step is long enough, and always stays within its configured range. Every callback runs exactly once per completed iteration in registration order, the iteration count never exceeds the limit, and a solve ends with failure when the regularisation would have to increase beyond its maximum (the KKT solver, which has none, as soon as a direction cannot be computed).",
  ["histories", "configurations"],
  "solvers x scripted outcomes of direction and step computations (success, failure, rejected) x regularisation settings x iteration limits",
  NOTEST + "reaching these paths needs particular sequences of failures.",
  [S + "ddp.cpp", S + "fddp.cpp", S + "intro.cpp"],
  [("increaseRegularization/decreaseRegularization and the solve loop", S + "ddp.cpp")],
  ["get_preg, get_dreg, get_iter, callbacks, return value"])

p("C06", "A failing or non-finite model evaluation never corrupts a solver",
  "If any single model evaluation during a solve throws, or returns a NaN or infinite cost or next state, the solver (built without multi-threading) does not crash or loop forever, never accepts a non-finite trajectory or cost, and never stores a trajectory that was not completely evaluated. After the fault has gone, solving again with the same solver gives the result of a solver that never saw it.",
  ["fault_sequences", "crash_points"],
  "every evaluation index of a solve x {throw, NaN cost, infinite cost, NaN next state, infinite next state} x solvers x one and two faults",
  NOTEST + "no test injects faults, and the interesting behaviour depends on exactly which evaluation fails.",
  [S + "ddp.cpp", S + "fddp.cpp", S + "box-ddp.cpp", S + "box-fddp.cpp", S + "intro.cpp", CORE + "solver-base.cpp"],
  [("raiseIfNaN and try/catch around directions and steps", S + "ddp.cpp")],
  ["get_xs, get_us, get_cost, return value"])

p("C07", "Solving is deterministic and independent of the solver's and problem's history",
  "Two solves with equal inputs give bitwise equal results (box solvers: equal within the tolerance of their warm-started box QP), whatever the same solver object, or another solver sharing the problem, did in between: other guesses, failed solves, changed initial states, replaced or rotated nodes that were changed back. After the problem's nodes or initial state are changed, a reused solver gives the result a newly created one gives.",
  ["histories"],
  "all operation histories up to a bounded depth over solve variants and problem modifications, for every solver",
  NOTEST + "MPC users reuse one solver for thousands of solves; upstream tests create a new one each time.",
  [CORE + "solver-base.cpp", S + "ddp.cpp", S + "fddp.cpp", S + "intro.cpp", S + "kkt.cpp", I + "optctrl/shooting.hxx"],
  [("is_updated / resizeData", I + "optctrl/shooting.hxx"), ("setCandidate", CORE + "solver-base.cpp")],
  ["get_xs, get_us, get_cost, get_iter"])

p("C08", "The backward pass is the exact Riccati recursion and predicts cost changes",
  "The value-function gradient and Hessian and the feedforward and feedback gains a solver exposes after computing a direction are those of the dynamic-programming recursion for the current linear-quadratic approximation, including the dynamics gaps and the current regularisation. On a linear-quadratic problem without active constraints or limits and without regularisation, the expected improvement equals the actual cost reduction: for every step length in [0, 1] from a feasible guess, and for the full step of the multiple-shooting solvers (FDDP and its variants) from an infeasible one; for their shorter steps from an infeasible guess it is the documented expression. On any problem, from a feasible guess, it is the actual reduction to first order in the step length. A direction is refused exactly when some control Hessian (projected on the constraints, where there are any) is not positive definite.",
  ["inputs", "configurations"],
  "DDP-type solvers x problem shapes x regularisation values x feasible/infeasible trajectories x step lengths",
  NOTEST + "upstream tests do not recompute value functions or expected improvement.",
  [S + "ddp.cpp", S + "fddp.cpp", S + "box-ddp.cpp", S + "box-fddp.cpp"],
  [("computeActionValueFunction, computeGains, computeValueFunction", S + "ddp.cpp"), ("updateExpectedImprovement, expectedImprovement", S + "fddp.cpp")],
  ["get_Vxx, get_Vx, get_Qxx, get_Quu, get_K, get_k, expectedImprovement, get_dVexp"])

p("C09", "The equality-constrained solver satisfies its constraints at the optimum",
  "On linear-quadratic problems with control-dependent equality constraints of full row rank at the running nodes, the equality-constrained solver converges to the constrained minimiser of the equivalent dense problem, with the constraint violation at zero. Its null-space (both factorisations) and Schur-complement resolutions give the same answer, also when the number of constraints differs between nodes or is zero. (Equality constraints of the terminal node are not handled by this solver.)",
  ["inputs", "configurations"],
  "three resolutions x horizons x control dimensions x constraints per node (0..nu) x guesses",
  NOTEST + "there is no runnable test of this solver.",
  [S + "intro.cpp", I + "solvers/intro.hpp"],
  [("computePolicy null-space and Schur variants", S + "intro.cpp")],
  ["get_xs, get_us, get_hfeas, get_equality_solver"])

p("C10", "The interior-point transcription describes exactly the shooting problem",
  "The nonlinear program handed to the interior-point back end has the problem's total cost as objective, the dynamics gaps and the initial-state condition as equality constraints and the nodes' control limits as bounds, for every trajectory and every horizon and control dimension. Its gradient and constraint Jacobian are the exact derivatives and its Hessian the objective factor times the problem's second-order cost terms, in the declared sparsity structure, and a solution is handed back to the solver unchanged. (The nodes' own equality and inequality constraints are not part of the program.)",
  ["inputs", "configurations"],
  "problem shapes x evaluation points x call orders of the callback functions",
  NOTEST + "nothing runnable covers it.",
  [S + "ipopt.cpp", S + "ipopt/ipopt-iface.cpp"],
  [("get_nlp_info, get_bounds_info, eval_f, eval_grad_f, eval_g, eval_jac_g, eval_h, finalize_solution", S + "ipopt/ipopt-iface.cpp")],
  ["Ipopt::TNLP interface"])

p("C11", "The box-constrained quadratic solver returns the constrained minimiser",
  "For every strictly convex quadratic, every box (also degenerate or unbounded) and every starting point, the returned point lies exactly within the box and is its constrained minimiser, the free and clamped index sets partition the coordinates accordingly, and the reported inverse is that of the free block. The answer does not depend on what the solver object solved before, including after a size change or a failed solve.",
  ["inputs", "histories"],
  "dimension 1..3 (thorough: 4) x Hessian families x gradients x boxes per coordinate x starting points; reuse histories up to depth 4",
  "The unit tests use an identity Hessian whenever bounds are active, so active-set changes, cycling and stalling cannot occur in them, and every test uses a new solver object.",
  [S + "box-qp.cpp", I + "solvers/box-qp.hpp"],
  [("active-set identification and projected line search", S + "box-qp.cpp")],
  ["BoxQP::solve result"])

p("C12", "Evaluating a shooting problem is evaluating its nodes",
  "Evaluating a problem, or its derivatives, on a trajectory leaves in every node's data exactly what evaluating that node alone on its state and control leaves there (on its state alone for the terminal node), and returns the sum of the node costs. Rolling out applies the dynamics from the initial state. The quasi-static controls are those each node computes alone, and for linear dynamics with enough controls they keep the state at rest.",
  ["inputs", "configurations"],
  "horizons x node kinds x control dimensions x trajectories x evaluation orders",
  NOTEST + "the multi-node evaluation has no runnable test.",
  [I + "optctrl/shooting.hxx"],
  [("calc, calcDiff, rollout, quasiStatic", I + "optctrl/shooting.hxx")],
  ["running/terminal datas, returned cost, rolled-out states"])

p("C13", "Editing a shooting problem keeps models, data and dimensions aligned",
  "After any sequence of structural edits (replacing, rotating or updating nodes, replacing the terminal node, changing the initial state), the problem behaves as a newly built one with the same content: each node's data belongs to its model, sizes are consistent, evaluation gives the same values, and a change is visible to solvers. An edit that is refused leaves the problem unchanged.",
  ["histories"],
  "all edit sequences up to a bounded depth over a menu of compatible and incompatible nodes",
  NOTEST + "it is a statement about all edit histories.",
  [I + "optctrl/shooting.hxx", I + "optctrl/shooting.hpp"],
  [("circularAppend, updateNode, updateModel, set_runningModels, set_terminalModel, set_x0", I + "optctrl/shooting.hxx")],
  ["get_* of the problem, calc results"])

p("C14", "Multi-threaded evaluation gives the sequential result under every schedule",
  "With multi-threading enabled, evaluating a problem or its derivatives, and solving it, gives the same node data, quasi-static controls and callbacks of the Ipopt interface as sequential evaluation, and the same costs up to the order of summation, for every number of threads and every interleaving, also when nodes share one model object and when the profiler is on. No schedule contains a data race.",
  ["schedules", "configurations"],
  "all interleavings (bounded preemptions) of the parallel loops of problem functions, Ipopt callbacks and whole solves for 2..4 threads, horizons 1..5, shared and distinct models of 17 kinds; every memory access of every schedule checked against a happens-before relation",
  "Tests run whatever schedule the machine happens to produce, and the runnable ones run none of this code.",
  [I + "optctrl/shooting.hxx", CORE + "solver-base.cpp", S + "ddp.cpp", S + "kkt.cpp"],
  [("OpenMP parallel loops over nodes", I + "optctrl/shooting.hxx")],
  ["node datas, costs, solver results"])

p("C15", "A cost sum evaluates exactly its active terms after any edit history",
  "After any sequence of adding, removing, activating, deactivating and reweighting cost terms, the sum's value and its first and second derivatives are the weighted sums over the currently active terms, at running and terminal nodes, and its residual dimensions and its active and inactive name lists match. Refused edits (duplicate or unknown names, wrong dimensions) change nothing.",
  ["histories"],
  "all edit and evaluation histories up to a bounded depth over a menu of terms, with data created before and after edits",
  NOTEST + "upstream tests perform one or two edits.",
  [I + "costs/cost-sum.hxx", I + "costs/cost-sum.hpp"],
  [("addCost, removeCost, changeCostStatus, calc, calcDiff", I + "costs/cost-sum.hxx")],
  ["cost, Lx, Lu, Lxx, Lxu, Luu, get_nr, get_nr_total, get_active_set"])

p("C16", "A constraint manager stacks exactly its active constraints after any history",
  "After any sequence of adding, removing, activating and deactivating constraints, the manager's dimensions equal the sums over active constraints, and the stacked inequality and equality values, bounds and Jacobians hold each active constraint's rows exactly once in one consistent order, at running and terminal nodes; only constraints flagged for the terminal node appear there. Refused edits change nothing.",
  ["histories"],
  "all edit and evaluation histories up to a bounded depth over a menu of equality, inequality and mixed constraints",
  NOTEST + "upstream tests perform one or two edits.",
  [I + "constraints/constraint-manager.hxx", I + "constraints/constraint-manager.hpp"],
  [("addConstraint, removeConstraint, changeConstraintStatus, resizeConstraints, calc, calcDiff", I + "constraints/constraint-manager.hxx")],
  ["g, h, Gx, Gu, Hx, Hu, get_lb, get_ub, get_ng, get_nh, get_ng_T, get_nh_T"])

p("C17", "Residual-based costs and constraints are exact compositions",
  "A residual cost's value is the activation of its residual, its gradient is the exact chain rule and its Hessian the Gauss-Newton one, whatever the residual declares about depending on state, velocity or control; a residual constraint's value is its residual split into equality or bounded inequality with exact Jacobians. Built-in residuals (control, joint effort, joint acceleration) and joint-space costs evaluate to their definition at running and terminal nodes.",
  ["inputs", "configurations"],
  "dependency declarations x activations x residual dimensions x running/terminal x evaluation orders and data reuse",
  NOTEST + "no runnable test covers costs or constraints.",
  [I + "costs/residual.hxx", I + "constraints/residual.hxx", I + "residual-base.hxx", I + "residuals/control.hxx", I + "residuals/joint-effort.hxx", I + "residuals/joint-acceleration.hxx"],
  [("calc/calcDiff, calcCostDiff", I + "costs/residual.hxx"), ("updateCalc/updateCalcDiff", I + "constraints/residual.hxx")],
  ["cost data and constraint data fields"])

p("C18", "Integrators compute the documented discretisation",
  "Each integrator's next state and cost for a node are exactly those of its documented scheme (semi-implicit Euler; second-, third- and fourth-order Runge-Kutta) applied to the continuous model with the control given by its parametrisation, for every step size, with or without cost residual; terminal evaluation yields the undiscounted terminal cost and constraints and leaves the state unchanged.",
  ["inputs", "configurations"],
  "integrators x parametrisations x step sizes (including zero) x continuous models x evaluation orders and data reuse",
  "The runnable tests use integrators only to build control parametrisations.",
  [I + "integrator/euler.hxx", I + "integrator/rk.hxx", I + "integ-action-base.hxx"],
  [("calc", I + "integrator/rk.hxx"), ("calc", I + "integrator/euler.hxx")],
  ["xnext, cost, g, h"])

p("C19", "Integrators return the exact derivatives of what they compute",
  "The dynamics, cost and constraint Jacobians (and Gauss-Newton Hessians) an integrator reports are the exact derivatives of the discretised dynamics, cost and constraints it evaluates, for every scheme and control parametrisation, at running and terminal nodes (terminal: cost and constraints), and independently of what the same data object was used for before.",
  ["inputs", "configurations", "histories"],
  "integrators x parametrisations x step sizes x models (linear-quadratic and nonlinear with analytic derivatives) x data reuse",
  NOTEST + "derivative errors only show for particular combinations of scheme and parametrisation.",
  [I + "integrator/euler.hxx", I + "integrator/rk.hxx"],
  [("calcDiff", I + "integrator/rk.hxx"), ("calcDiff", I + "integrator/euler.hxx")],
  ["Fx, Fu, Lx, Lu, Lxx, Lxu, Luu, Gx, Gu, Hx, Hu"])

p("C20", "Control parametrisations are consistent",
  "For each parametrisation, the control is the documented polynomial of the parameters at every time in [0, 1], the reported Jacobian is its exact derivative, both Jacobian products equal the explicit products with it in every assignment mode, recovering parameters from a control reproduces that control, and converting bounds of the control gives parameter bounds that keep the control within its bounds at the collocation points.",
  ["inputs", "histories"],
  "parametrisations x dimensions 1..3 x times x parameters x assignment modes x data reuse",
  "The unit tests sample a few random times, one assignment mode and fresh data.",
  [I + "controls/poly-zero.hxx", I + "controls/poly-one.hxx", I + "controls/poly-two-rk.hxx"],
  [("calc, calcDiff, params, convertBounds, multiplyByJacobian, multiplyJacobianTransposeBy", I + "controls/poly-two-rk.hxx")],
  ["ControlParametrizationData"])

p("C21", "Built-in action models evaluate to their definition with exact derivatives",
  "The linear-quadratic action models (discrete and continuous) and the unicycle evaluate to their documented dynamics, cost and constraints, and report their exact derivatives, for all parameters and at running and terminal nodes. After their parameters are changed, every data object created from them, before or after, gives the values of the new parameters.",
  ["inputs", "histories"],
  "models x parameter changes x several data objects x evaluation orders up to a bounded depth",
  NOTEST + "the history dimension (parameter change with several data objects) is not covered upstream.",
  [I + "actions/lqr.hxx", I + "actions/diff-lqr.hxx", I + "actions/unicycle.hxx"],
  [("calc, calcDiff, set_LQR", I + "actions/lqr.hxx")],
  ["action data fields"])

p("C22", "Activations report the exact derivatives of their value",
  "Each activation function's value is its documented formula, its gradient the exact derivative, and its Hessian the diagonal of the exact derivative of the gradient (the documented approximation where stated), for every residual including points on and beyond barrier bounds; where a function has a kink, either one-sided Hessian, and nothing is claimed for the derivatives of the 2-norm barrier at zero. After its weights, bounds or reference parameters are changed, every data object created from it gives the values of the new parameters.",
  ["inputs", "histories"],
  "activations x residual lattice including kinks x parameter changes x several data objects",
  NOTEST + "upstream tests sample random residuals with fresh data and never change parameters between evaluations.",
  [I + "activations/quadratic.hpp", I + "activations/weighted-quadratic.hpp", I + "activations/quadratic-barrier.hpp", I + "activations/weighted-quadratic-barrier.hpp", I + "activations/smooth-1norm.hpp", I + "activations/smooth-2norm.hpp", I + "activations/quadratic-flat-exp.hpp", I + "activations/quadratic-flat-log.hpp", I + "activations/2norm-barrier.hpp"],
  [("calc, calcDiff", I + "activations/weighted-quadratic.hpp")],
  ["a_value, Ar, Arr"])

p("C23", "State manifold operations obey their algebra",
  "For every built-in state type, integrating the difference of two points from the first gives the second, the difference to an integrated point gives the displacement, and zero displacement is neutral; the reported Jacobians of both operations are their exact derivatives for first, second or both arguments and (Jacobians of integration, in the vector state) in every assignment mode (set, add, remove), and Jacobian transport multiplies by exactly them. Wrong dimensions are refused.",
  ["inputs", "configurations"],
  "state types and dimensions x points x component selections x assignment modes x pre-filled outputs",
  NOTEST + "pre-filled outputs and all assignment modes are not sampled upstream.",
  [I + "states/euclidean.hxx", I + "state-base.hxx", I + "numdiff/state.hxx"],
  [("diff, integrate, Jdiff, Jintegrate, JintegrateTransport", I + "states/euclidean.hxx")],
  ["StateAbstract methods"])

p("C24", "Numerical-differentiation wrappers agree with exact derivatives",
  "Each numerical-differentiation wrapper evaluates to exactly what the wrapped object evaluates to, its derivatives approach the exact ones within the error of its disturbance (activations: the diagonal of the Hessian), and neither depends on earlier evaluations of the same data or leaves the wrapped object's data inconsistent.",
  ["inputs", "histories"],
  "wrappers (state, control, activation, residual, cost, constraint, actuation, action, continuous action, contact) x wrapped models x running/terminal x data reuse",
  NOTEST + "only the control wrapper is executed by runnable tests.",
  [I + "numdiff/action.hxx", I + "numdiff/diff-action.hxx", I + "numdiff/state.hxx", I + "numdiff/activation.hxx", I + "numdiff/residual.hxx", I + "numdiff/constraint.hxx", I + "numdiff/actuation.hxx", I + "numdiff/control.hxx", MB + "numdiff/contact.hxx"],
  [("calc, calcDiff by finite differences", I + "numdiff/action.hxx")],
  ["data of the wrappers"])

p("C25", "Invalid arguments are refused and leave objects unchanged",
  "The preconditions that the solvers, the box QP, the models (actions, states, activations, residuals, costs, constraints, controls, actuations; rigid-body dynamics, contacts, impulses and residuals), the shooting problem's evaluations and their constructors place on their arguments (dimension, sign, range, ordering) are enforced: a violating call throws instead of reading or writing out of bounds, and afterwards the object behaves exactly as before the call, while every call that satisfies the preconditions, including at the edge of a range, is accepted. Not-a-number arguments are not judged, nor ranges that are only warned about.",
  ["inputs", "histories"],
  "public setters, constructors and evaluation functions x wrong sizes and boundary values of each range, followed by a use of the object",
  NOTEST + "error paths are practically untested.",
  [S + "ddp.cpp", S + "fddp.cpp", S + "box-qp.cpp", CORE + "solver-base.cpp", I + "action-base.hxx", I + "diff-action-base.hxx", I + "constraint-base.hxx", I + "optctrl/shooting.hxx", I + "integ-action-base.hxx", I + "state-base.hxx", MB + "actions/contact-fwddyn.hxx", MB + "contacts/multiple-contacts.hxx", MB + "states/multibody.hxx"],
  [("throw_pretty argument checks", S + "ddp.cpp")],
  ["exceptions; getters after the call"])

p("C26", "Casting to another scalar type preserves the whole configuration",
  "Converting any model to another scalar type yields a model of the same kind with the same dimensions, limits, parameters, composition and status flags, which evaluates to the same values within the precision of the narrower type; converting to the same type, or back, keeps whatever the narrower type can represent exactly. The new model is independent of the one it came from and responds to the same edits alike. (The disturbance of numerical differentiation follows the precision.)",
  ["inputs", "configurations"],
  "all castable models x edit histories before and after chains of casts (double to double, to float, to float, back, again)",
  NOTEST + "casts are not executed by any runnable test.",
  [I + "actions/lqr.hxx", I + "actions/unicycle.hxx", I + "integrator/rk.hxx", I + "costs/cost-sum.hxx", I + "constraints/constraint-manager.hxx", I + "optctrl/shooting.hxx", I + "macros.hpp", MB + "actions/contact-fwddyn.hxx", MB + "residuals/frame-placement.hxx", MB + "contacts/multiple-contacts.hxx"],
  [("cast<NewScalar>", I + "macros.hpp")],
  ["getters and evaluations of original and cast model"])

p("C27", "Profiling statistics describe exactly the recorded intervals",
  "For every well-formed sequence of start, stop, pause and reset operations and every non-decreasing clock, the reported count, total, average, minimum, maximum and last time of each profiled section are those of the intervals recorded since its last reset, excluding paused periods, in the selected timing mode. Misuse (stopping what was not started, unknown names) is refused, and switching profiling off records nothing.",
  ["histories"],
  "all operation sequences up to a bounded depth over two names, both timing modes and a virtual clock",
  NOTEST + "real time makes such tests flaky, so none exist.",
  [I + "utils/stop-watch.hpp", CORE + "utils/stop-watch.cpp"],
  [("start, stop, pause, reset, get_*", CORE + "utils/stop-watch.cpp")],
  ["get_total_time, get_average_time, get_min_time, get_max_time, get_last_time"])

p("C28", "Squashed actuation is the exact composition of its parts",
  "A squashed actuation's torque is the inner actuation applied to the squashed control, and its state and control Jacobians are the exact derivatives of that composition, for state-dependent inner actuations too. The smooth saturation stays strictly within its limits, is increasing, and its Jacobian is exact for every smoothing value and after its smoothing is changed.",
  ["inputs", "histories"],
  "squashing functions x limits x smoothing x inner actuations (with and without state dependence) x data reuse",
  NOTEST + "actuation code has no runnable test.",
  [I + "actuation/actuation-squashing.hpp", I + "actuation/squashing/smooth-sat.hpp", I + "actuation/squashing-base.hpp"],
  [("calc, calcDiff", I + "actuation/actuation-squashing.hpp")],
  ["tau, dtau_dx, dtau_du"])

p("C29", "The pair-collision residual is the distance vector of its geometries",
  "For every configuration, pair of geometries and dynamics, the pair-collision residual is the difference of the two geometries' nearest points (first minus second), its Jacobian is that of the first one's point carried by the given joint, so that the gradient of half its square is that of half the squared distance when the second geometry does not move; values belong to the data they were computed in, whatever was evaluated with other data of the model. Pairs and joints that do not exist are refused, and copies and casts refer to the same pair.",
  ["inputs", "histories"],
  "dynamics x robots x geometry pairs x ways to obtain the model x evaluation histories of two data",
  "its only test needs pinocchio and hpp-fcl and is never compiled.", [MB + "residuals/pair-collision.hpp"],
  [("residual, Jacobian", MB + "residuals/pair-collision.hxx")],
  ["r, Rx, cost and its derivatives"])

p("C30", "Generated code evaluates to the model it was generated from",
  "A code-generated action model evaluates to the same values and derivatives as the model it was generated from for every state, control and environment parameter.",
  ["inputs"], "models, inputs", "needs CppADCodeGen", [I + "codegen/action-base.hpp"], [("code generation", I + "codegen/action-base.hxx")])

p("C31", "Cones and support polygons describe the contact's admissible forces",
  "For every rotation, friction coefficient, facet count, contact box and force range, a force satisfies the inequalities of a friction cone exactly if its tangential part lies in the stated inner or outer polyhedral approximation and its normal part in the range; a wrench satisfies those of a wrench cone exactly if unilateral forces within the friction pyramid (and range) at the corners of the contact box can produce it; the support polygon is the wrench cone's centre-of-pressure part. Objects edited through setters and updated equal ones newly built with the same parameters, and invalid parameters are corrected as documented.",
  ["inputs", "histories"],
  "rotations x coefficients x facets x boxes x force ranges x forces and wrenches, edit histories",
  NOTEST + "none of the multibody tests run here.",
  [MB + "friction-cone.hxx", MB + "wrench-cone.hxx", MB + "cop-support.hxx"],
  [("FrictionCone update", MB + "friction-cone.hxx"), ("WrenchCone update", MB + "wrench-cone.hxx"), ("CoPSupport update", MB + "cop-support.hxx")],
  ["get_A, get_lb, get_ub and parameter getters"])

p("C32", "The state of a rigid-body system is a manifold with exact Jacobians",
  "For every model, pair of points and displacement: integrating the difference of two points gives the second, the difference to an integrated point gives the displacement, and zero moves nothing; the Jacobians of difference and integration, for each component and assignment mode, are the exact derivatives whatever the outputs held before, and leave the outputs not asked for alone; transporting multiplies by the Jacobian asked for and refuses both at once; arguments of wrong size are refused without writing. The limits are the model's (none for a root joint's configuration) until changed, has_limits tells whether any is finite, and casts keep dimensions and limits.",
  ["inputs", "histories", "configurations"],
  "models x points x displacements x components x assignment modes x previous contents of the outputs; edits of limits",
  NOTEST + "none of the multibody tests run here.",
  [MB + "states/multibody.hxx"],
  [("diff, integrate, Jdiff, Jintegrate, JintegrateTransport", MB + "states/multibody.hxx"), ("limits and cast", MB + "states/multibody.hxx")],
  ["points, displacements, Jacobians, bounds"])

p("C33", "Contacts and impulses constrain what they say, stacks of them exactly the active ones",
  "For every system, frame, reference frame and stabilisation gains, a contact reports the Jacobian of the constrained velocity, the constrained acceleration with its stabilisation terms, the exact derivatives of that acceleration, the joint force whose torques are the transposed Jacobian times the contact force, and the exact derivative of those torques; an impulse likewise for the velocity. After every history of adding, removing and (de)activating, a stack's dimensions, rows, forces and derivatives are exactly those of its active items in name order, with zeros for inactive ones, forces on a shared joint add up, casts are equivalent, and arguments of wrong size are refused without effect.",
  ["inputs", "histories", "configurations"],
  "contact kinds x frames x reference frames x gains x states; edit histories of stacks, re-used data",
  NOTEST + "none of the multibody tests run here.",
  [MB + "contacts/contact-1d.hxx", MB + "contacts/contact-2d.hxx", MB + "contacts/contact-3d.hxx", MB + "contacts/contact-6d.hxx", MB + "contacts/multiple-contacts.hxx", MB + "impulses/impulse-3d.hxx", MB + "impulses/impulse-6d.hxx", MB + "impulses/multiple-impulses.hxx"],
  [("calc, calcDiff, updateForce", MB + "contacts"), ("stacks", MB + "contacts/multiple-contacts.hxx")],
  ["data of contacts, impulses and stacks; dimensions and active sets"])

p("C34", "Rigid-body action models obey the equations of motion and differentiate them exactly",
  "For every robot, stack of active and inactive contacts, state and control, the free and contact forward dynamics return the acceleration and contact forces that solve the equations of motion with the actuation, armature and damping that were set; the inverse dynamics take the acceleration and forces from the control and constrain unactuated torques, accelerations of active contacts and forces of inactive ones to zero; the impulse model returns the velocity after an inelastic or elastic impact. The derivatives of dynamics, contact forces, costs and constraints are exact for running and terminal nodes; results do not depend on what the data were used for before; quasi-static controls keep the robot at rest whenever that is possible; control limits are the robot's; casts are equivalent; and arguments of wrong size are refused without effect.",
  ["inputs", "histories", "configurations"],
  "kinds of dynamics x robots x contact stacks x options x states; histories of evaluations and edits",
  NOTEST + "none of the multibody tests run here.",
  [MB + "actions/free-fwddyn.hxx", MB + "actions/free-invdyn.hxx", MB + "actions/contact-fwddyn.hxx", MB + "actions/contact-invdyn.hxx", MB + "actions/impulse-fwddyn.hxx", MB + "residuals/contact-force.hxx", MB + "actuations/floating-base.hpp", MB + "actuations/full.hpp"],
  [("calc, calcDiff, quasiStatic, cast", MB + "actions")],
  ["accelerations, forces, costs, constraints and their derivatives", "quasi-static controls"])

p("C35", "Residuals of rigid-body models measure what they document and differentiate it exactly",
  "In every action model, robot, contact stack and point, the residuals on frame placements, rotations, translations and velocities, the centre of mass, the centroidal momentum, the state, control and gravity, contact forces, friction and wrench cones, centres of pressure and the velocity jump of an impact equal the documented function of the state and control minus their current reference, and their Jacobians and the Gauss-Newton derivatives of their costs are exact, for running and terminal nodes. This holds whichever other costs are present, however the reference, frame or axes were set (also after data were created and for every data sharing the model), whatever the data were used for before, and for casts. Frames that do not exist, contacts that are missing or of another dimension, and references of wrong size are refused.",
  ["inputs", "histories", "configurations"],
  "residuals x dynamics x robots x contact stacks x ways of setting references; histories of shared and re-used data",
  NOTEST + "none of the multibody tests run here.",
  [MB + "residuals/frame-placement.hxx", MB + "residuals/frame-rotation.hxx", MB + "residuals/frame-translation.hxx", MB + "residuals/frame-velocity.hxx", MB + "residuals/com-position.hxx", MB + "residuals/centroidal-momentum.hxx", MB + "residuals/state.hxx", MB + "residuals/control-gravity.hxx", MB + "residuals/contact-force.hxx", MB + "residuals/contact-friction-cone.hxx", MB + "residuals/contact-wrench-cone.hxx", MB + "residuals/contact-cop-position.hxx", MB + "residuals/impulse-com.hxx"],
  [("calc, calcDiff, set_reference", MB + "residuals")],
  ["residual, Jacobians and cost derivatives in the data of the action models"])

p("C36", "Robot actuations map controls to joint torques and back, and follow their thrusters",
  "For full, floating-base and thruster actuations, the generalized torques are the documented linear function of the controls: the joint torques, and at the floating base the sum of the forces, moments and drag torques of the thrusters in their current poses. dtau_du is that map exactly and dtau_dx is zero; commands gives the least-squares control for given torques, Mtau is the pseudo-inverse, and tau_set tells the joints that the actuation reaches. After set_thrusters all of this holds for the new thrusters and for every data that shares the model; copies and casts keep them. Controls, torques and thruster sets of wrong size and robots without a floating base are refused without effect. The forward dynamics move as these torques demand, and the inverse dynamics' constraint is zero exactly for motions that the actuation can produce, or the model refuses the actuation.",
  ["inputs", "histories", "configurations"],
  "actuations x thruster layouts x histories of evaluations and set_thrusters over shared data; dynamics on top of them",
  NOTEST + "none of the multibody tests run here.",
  [MB + "actuations/floating-base-thrusters.hpp", MB + "actuations/floating-base.hpp", MB + "actuations/full.hpp", MB + "actions/free-invdyn.hpp", MB + "actions/contact-invdyn.hpp", MB + "actions/free-fwddyn.hxx", I + "actuation-base.hxx"],
  [("calc, commands, set_thrusters, updateData", MB + "actuations/floating-base-thrusters.hpp"), ("ResidualModelActuation", MB + "actions/free-invdyn.hpp")],
  ["tau, u, dtau_du, Mtau, tau_set in the actuation data", "xout, h, Hx, Hu of the dynamics"])

p("C37", "The gait generator builds the walk that was asked for",
  "For every initial state, step length and height, number of knots and history of calls, the generated quadruped problem starts at that state and consists of a support phase, the right hind and front steps, a support phase and the left hind and front steps; in every node exactly the support feet are held and transmit forces (in impacts: impulses), the swing foot's reference advances from its initial place by the step's length (half of it for the first two steps of a generator) and follows the height's profile, the reference of the centre of mass advances by a quarter of it per step from the middle of the feet, and the costs are the stated weighted sums. Walks generated later leave earlier ones unchanged.",
  ["inputs", "histories"],
  "robots x initial states x step lengths x heights x knots x histories of calls; single phases over all sets of feet",
  NOTEST + "the generator is only used by a benchmark.",
  ["include/crocoddyl/multibody/utils/quadruped-gaits.hpp"],
  [("createWalkingProblem, createFootStepModels", "src/multibody/utils/quadruped-gaits.cpp")],
  ["cost and next state of every node, accelerations and forces at the feet"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
