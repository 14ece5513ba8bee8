#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
I = "include/crocoddyl/core/"
S = "src/core/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), na=None, technique="", note=""):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)),
                  na=na, technique=technique, note=note))


ONLY = "The stable tests cover BoxQP and the control parametrizations on a few fixed sizes only; "

prop("C01", "A feasible verdict is true: the trajectory obeys dynamics and x0",
     "Whenever a solver (DDP, FDDP, BoxDDP, BoxFDDP, Intro, KKT, Ipopt) reports its current trajectory as feasible, that trajectory starts at the problem's initial state and every state is the model's successor of the previous state and control, up to the solver's gap tolerance / numerical accuracy; the trajectory has T+1 states and T controls of the nodes' dimensions and finite entries. This holds at every iteration seen by a callback and when solve returns, for every warm start.",
     ["inputs", "histories", "configurations"], "every problem, warm start (feasible or not, right or wrong claim of feasibility excepted), horizon, maxiter and callback point",
     ONLY + "no solver is run by them, and feasibility must hold at every iterate of every problem.",
     [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/box-fddp.cpp", S + "solvers/intro.cpp", S + "solvers/kkt.cpp", S + "solver-base.cpp"],
     [("computeDynamicFeasibility / setCandidate / tryStep", S + "solver-base.cpp, solvers/*.cpp")], ["solver getters xs, us, is_feasible in a callback and after solve"])
prop("C02", "Reported cost, gaps and feasibility figures are those of the trajectory",
     "After solve, and at every callback, the reported cost equals the sum of the node costs at the reported states and controls (and the reported reduction the difference of two such sums); the reported gaps equal the difference between each state and its prediction at the candidate the last search direction was computed at (SolverKKT and SolverIpopt report no gaps); the dynamics, inequality and equality feasibility figures equal their definition (max or sum over all nodes and the terminal node of the constraint violation, according to the chosen norm) evaluated at the last evaluated candidate.",
     ["inputs", "histories"], "every problem with and without constraints, both norms, every iterate",
     ONLY + "figures must be right at every iterate.", [S + "solver-base.cpp", S + "solvers/ddp.cpp", I + "optctrl/shooting.hxx"],
     [("computeDynamicFeasibility, computeInequalityFeasibility, computeEqualityFeasibility", S + "solver-base.cpp"), ("ShootingProblem::calc", I + "optctrl/shooting.hxx")])
prop("C03", "Linear-quadratic problems are solved to their exact optimum",
     "For every strictly convex linear-quadratic problem (with drift, cross terms and linear terms) and any warm start, DDP, FDDP, BoxDDP and BoxFDDP without limits, Intro, KKT and Ipopt converge to the unique optimal trajectory, and with zero regularisation one full Newton step reaches it; the predicted improvement of that full step equals the realised one (FDDP, BoxFDDP, Intro and KKT from any start, DDP and BoxDDP from a feasible one).",
     ["inputs", "configurations"], "all LQ problems with positive definite Hessians, all warm starts",
     ONLY + "no solver is run.", [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/kkt.cpp", S + "solvers/ipopt.cpp", S + "solvers/intro.cpp"],
     [("backwardPass/forwardPass", S + "solvers/ddp.cpp"), ("expectedImprovement", S + "solvers/fddp.cpp")])
prop("C04", "Iterations obey the acceptance, step, regularisation and stopping rules",
     "In every solve: accepted steps use a step length from the candidate list, satisfy the solver's acceptance test (sufficient decrease of the cost, for SolverIntro of the merit function, bounded increase while gaps are open), and never increase the cost of a feasible trajectory under DDP, FDDP and their box variants; regularisations follow the increase/decrease rules, stay within their configured bounds, and reaching the largest one ends the solve, also when it starts at zero; at most maxiter iterations run, each accepted iteration invokes every callback exactly once in order with a consistent solver; solve returns true only if the stopping criterion is below its threshold at the returned point.",
     ["histories", "inputs", "configurations"], "every run of DDP, FDDP, BoxDDP, BoxFDDP, Intro over nonlinear problems, thresholds and maxiter",
     ONLY + "rules over whole iteration histories are never examined.", [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/intro.cpp"],
     [("solve loops, increase/decreaseRegularization", S + "solvers/*.cpp")], ["callbacks"])
prop("C05", "Reported convergence means a stationary point",
     "When DDP, FDDP, Intro, KKT or Ipopt reports convergence on an unconstrained problem, the returned trajectory is dynamically consistent and the total derivative of the total cost with respect to every control, computed independently through the dynamics, vanishes to the accuracy implied by the stopping threshold; at a feasible point the stopping value of the DDP-type solvers is half the (regularised) Newton decrement.",
     ["inputs", "histories"], "smooth nonlinear problems on vector and Lie-group states, any warm start",
     ONLY + "no solver is run.", [S + "solvers/ddp.cpp", S + "solvers/fddp.cpp", S + "solvers/kkt.cpp"], [("stoppingCriteria", S + "solvers/*.cpp")])
prop("C06", "The backward pass satisfies the Riccati recursion",
     "After a search direction is computed at any point, the solver's value-function gradients and Hessians, action-value derivatives, feedback gains and feedforward terms satisfy the (regularised, gap-corrected) Bellman recursion built from the model derivatives, and the value Hessians are symmetric.",
     ["inputs"], "every problem, point (gaps or not), regularisation and varying control dimension",
     ONLY + "never examine the recursion.", [S + "solvers/ddp.cpp"], [("backwardPass, computeActionValueFunction, computeValueFunction, computeGains", S + "solvers/ddp.cpp")],
     ["getters Vx, Vxx, Qx, Qu, Qxx, Qxu, Quu, K, k"])
prop("C07", "Multiple-shooting steps contract the gaps; line-search model is right",
     "For FDDP and BoxFDDP a step of length a taken from an infeasible trajectory yields a candidate whose gaps are (1-a) times the previous gaps (zero for a=1), and the DDP forward pass yields a candidate that is exactly a rollout; the candidate controls follow the affine policy u - a k - K dx (clamped to the limits by the box solvers), the reported trial cost is that of the candidate, and the improvement model is the documented function of gradients, gains and gaps, exact on linear-quadratic problems for every step from a feasible trajectory and for the full step from an infeasible one.",
     ["inputs"], "every problem, point with gaps, step length in (0,1]",
     ONLY + "never take a step.", [S + "solvers/fddp.cpp", S + "solvers/ddp.cpp", S + "solvers/box-fddp.cpp"], [("forwardPass, tryStep, expectedImprovement", S + "solvers/fddp.cpp")])
prop("C08", "Box solvers never leave the control limits and reach the box optimum",
     "Every control sequence proposed by BoxDDP and BoxFDDP, and every one they accept or return after the first accepted step, lies within the models' control limits (including one-sided limits); at feasible points the feedforward step solves the stage's box QP and the feedback acts on its free controls only; on strictly convex linear-quadratic problems with control limits the converged solution is the constrained optimum (its projected gradient vanishes), and it is reached from every start inside the limits that is claimed feasible or has gaps.",
     ["inputs", "histories"], "every problem with finite, one-sided or absent limits on nodes, varying control dimension, any warm start",
     "test_boxqp exercises the QP solver on a few random QPs; the trajectory solvers never run.", [S + "solvers/box-ddp.cpp", S + "solvers/box-fddp.cpp", S + "solvers/box-qp.cpp"],
     [("computeGains/forwardPass", S + "solvers/box-ddp.cpp")])
prop("C09", "BoxQP returns the KKT point of the box-constrained QP",
     "For every positive definite Hessian, gradient, box (including degenerate, one-sided and infinite bounds) and initial guess, BoxQP returns a point inside the box that satisfies the KKT conditions, a free/clamped partition consistent with that point, and the inverse of the free-free Hessian block; results do not depend on earlier calls.",
     ["inputs", "histories"], "all SPD QPs with condition numbers up to about 1e6, all boxes and initial guesses, repeated calls on one object",
     "test_boxqp checks unconstrained and simple boxes of fixed size with random identity-like Hessians.", [S + "solvers/box-qp.cpp", I + "solvers/box-qp.hpp"], [("BoxQP::solve", S + "solvers/box-qp.cpp")])
prop("C10", "Intro solves equality-constrained problems, alike with every null-space method",
     "On strictly convex linear-quadratic problems with full-row-rank stage equality constraints, SolverIntro converges to the constrained optimum with equality residuals at zero, for the LU null-space, QR null-space and Schur-complement solvers, which agree with each other; the returned equality residuals equal those of the returned trajectory.",
     ["inputs", "configurations"], "all such problems, nodes with and without constraints, all three equality solvers",
     ONLY + "Intro is never run.", [S + "solvers/intro.cpp", I + "solvers/intro.hpp"], [("computePolicy, computeSchurComplement, calcDir", S + "solvers/intro.cpp")])
prop("C11", "The Ipopt interface presents exactly the shooting problem",
     "The NLP handed to Ipopt has one variable block per state and control node, its objective is the total cost, its constraints are the dynamics and initial-state defects, its bounds are the control limits, its gradient and Jacobian are the derivatives of these at whatever point is passed, and its Hessian the objective factor times the nodes' cost Hessians (Gauss-Newton: dynamics curvature is left out), independently of which callbacks ran before and with which arguments; SolverIpopt returns a feasible local optimum of the problem within the control limits.",
     ["inputs", "histories"], "all points, call orders, objective factors, problems with varying control dimension and Lie-group states",
     ONLY + "the interface is never called.", [S + "solvers/ipopt/ipopt-iface.cpp", S + "solvers/ipopt.cpp"], [("eval_f, eval_grad_f, eval_g, eval_jac_g, eval_h, finalize_solution", S + "solvers/ipopt/ipopt-iface.cpp")])
prop("C12", "Feasibility of warm starts is handled by length and claim",
     "setCandidate stores exactly the given states and controls (or neutral ones when empty) together with the given feasibility claim, rejects wrong lengths or dimensions without changing the candidate, and solve started from it uses precisely that candidate as its first evaluation.",
     ["inputs", "histories"], "every combination of empty, partial, wrong-sized and right-sized warm starts, before and after a solve, for every solver",
     ONLY + "no solver is run.", [S + "solver-base.cpp"], [("setCandidate, set_xs, set_us", S + "solver-base.cpp")])
prop("C13", "A reused solver behaves like a fresh one; solving is deterministic",
     "Solving is a function of problem, warm start and settings only: repeating a solve on the same solver object, or solving after the problem was edited (nodes replaced, appended, models with other control or constraint dimension, new initial state), gives the same trajectory, cost, iterations and verdict as a newly constructed solver on an identical problem (for the box solvers, whose QPs are warm-started with the previous gains, the same converged solution; for SolverIntro with a penalty reset at each solve).",
     ["histories", "inputs"], "every sequence of edits and solves (horizon length unchanged), for every solver type",
     ONLY + "histories of edits are never run.", [S + "solver-base.cpp", S + "solvers/ddp.cpp", I + "optctrl/shooting.hxx"], [("is_updated/resizeData", S + "solvers/*.cpp")])
prop("C14", "Invalid arguments are rejected and leave the object unchanged",
     "Setters and evaluation functions given documented-invalid values (wrong vector sizes, negative or zero tolerances and regularisations, step lengths outside their range, empty lists, out-of-range indices, inverted bounds) throw an exception and leave every observable value of the object as it was, while valid values are stored and read back exactly.",
     ["inputs", "histories"], "every setter of solvers, BoxQP, states, models, costs, constraints, integrators; interleaved valid and invalid calls",
     ONLY + "no setter is tried with an invalid value.", [S + "solver-base.cpp", S + "solvers/ddp.cpp", S + "solvers/box-qp.cpp", I + "action-base.hxx", I + "state-base.hxx"], [("throw_pretty argument checks", "all setters")])
prop("C15", "Evaluating a problem evaluates each node once, on its own point",
     "ShootingProblem calc, calcDiff and rollout give the cost, derivatives and states obtained by evaluating every node's model separately on that node's state and control (terminal model on the last state), call every node exactly once with its own data, start rollouts at the initial state, leave their inputs unchanged and reject trajectories of wrong length.",
     ["inputs", "histories"], "all problems mixing action types, shared or distinct models, repeated evaluations",
     ONLY + "no shooting problem is built.", [I + "optctrl/shooting.hxx"], [("calc, calcDiff, rollout", I + "optctrl/shooting.hxx")])
prop("C16", "Editing a problem changes exactly the edited nodes",
     "After any sequence of circularAppend, updateNode, updateModel, set_terminalModel, set_runningModels and set_x0 calls, the problem's models, data and initial state equal those of a simple list model of the edits (rejected edits change nothing), data of untouched nodes is kept, edited nodes own data made for their model, evaluation agrees with a newly built problem, and the updated flag reports edits exactly once.",
     ["histories", "inputs"], "every edit sequence including rejected edits, copies and problems built with user data",
     ONLY + "no problem is built.", [I + "optctrl/shooting.hxx"], [("circularAppend, updateNode, updateModel, set_*", I + "optctrl/shooting.hxx")])
prop("C17", "Multi-threaded evaluation is race-free and equals the serial result",
     "With multi-threading enabled, calc, calcDiff, quasiStatic and the solvers' use of them execute without data races on problems whose nodes share models, and produce the same values as serial evaluation, for every number of threads and every schedule.",
     ["schedules", "inputs", "configurations"], "thread counts 1..8, shared models, perturbed schedules",
     "The tests are built without multi-threading.", [I + "optctrl/shooting.hxx", S + "solver-base.cpp"], [("OpenMP parallel loops over nodes", I + "optctrl/shooting.hxx")])
prop("C18", "Action derivatives are the derivatives of the action",
     "For LQR, unicycle, differential LQR and integrated actions, calcDiff gives the Jacobians of the next state and constraints, and the gradient of the cost, with respect to state tangent and control at every point, for running and terminal evaluations; LQR Hessians are the exact second derivatives and unicycle Hessians the Gauss-Newton ones, and calc returns the documented formula.",
     ["inputs"], "all parameters, points and dimensions",
     ONLY + "no action derivative is tested.", [I + "actions/lqr.hxx", I + "actions/diff-lqr.hxx", I + "actions/unicycle.hxx", I + "integrator/euler.hxx", I + "integrator/rk.hxx"], [("calc/calcDiff", I + "actions/*.hxx")])
prop("C19", "Integrated actions realise their integration scheme exactly",
     "IntegratedActionEuler and IntegratedActionRK (2, 3, 4 stages) return the next state, running cost, constraints and cost residual option of their integration rule with the parametrized control evaluated at the stage times, for vector and Lie-group states; derivatives equal those of that map; a zero time step leaves the state unchanged; terminal evaluation is that of the differential model; RK of order p has local error of order p+1.",
     ["inputs", "configurations"], "all differential models, control parametrizations, time steps, stages",
     "test_controls only exercises the parametrization polynomials.", [I + "integrator/euler.hxx", I + "integrator/rk.hxx", I + "integ-action-base.hxx"], [("calc/calcDiff", I + "integrator/*.hxx")])
prop("C20", "Control parametrizations are consistent linear maps",
     "For polynomial parametrizations of order 0, 1 and 2 (RK three/four), the control is the interpolating polynomial of the parameters at every normalised time, its derivative and Jacobian products are those of that map with every assignment mode, params recovers parameters giving the requested control at the time, and bounds conversion yields parameter bounds that keep the control within limits at the nodes.",
     ["inputs"], "all parameters, times in [0,1], dimensions, assignment operators",
     "test_controls uses a fixed handful of random points at fixed dimension and skips bounds and assignment modes.", [I + "controls/poly-zero.hxx", I + "controls/poly-one.hxx", I + "controls/poly-two-rk.hxx"], [("calc, calcDiff, params, convertBounds, multiplyByJacobian", I + "controls/*.hxx")])
prop("C21", "State operations satisfy the manifold laws",
     "For the vector state and the numerical-difference state: diff and integrate are mutually inverse, Jacobians are the derivatives of these operations, every assignment mode (set, add, remove) and component selection changes exactly the selected output accordingly, transport multiplies by the integration Jacobian, limits setters keep the has-limits flag right, and wrong sizes are rejected without touching outputs.",
     ["inputs"], "all dimensions, points, selections, assignment operators",
     ONLY + "states are untested.", [I + "states/euclidean.hxx", I + "numdiff/state.hxx", I + "state-base.hxx"], [("diff, integrate, Jdiff, Jintegrate, JintegrateTransport", I + "states/euclidean.hxx")])
prop("C22", "Activation gradients and Hessians belong to the activation value",
     "For every activation model (quadratic, weighted, flat exponential and logarithmic, smooth absolute, 1-norm and 2-norm, 2-norm barrier, quadratic and weighted quadratic barrier) and every residual, calc returns the documented value, calcDiff the gradient of that value and the documented (Gauss-Newton, where stated; otherwise exact) diagonal Hessian; changing parameters takes effect for every data.",
     ["inputs", "histories"], "all residuals away from non-differentiable points, all parameters, several datas per model",
     ONLY + "activations are untested.", [I + "activations/"], [("calc/calcDiff", I + "activations/*.hpp")])
prop("C23", "Cost sums equal the weighted sum of their active items, through any history",
     "After any sequence of adding, removing, enabling, disabling items and changing weights, a cost sum's value, gradient and Hessian are the weighted sum of the active items' own values, its active/inactive sets and dimensions match a simple map model, rejected operations change nothing, and residual costs apply the chain rule of activation and residual.",
     ["histories", "inputs"], "every history of operations; running and terminal evaluations; shared residual data or not",
     ONLY + "costs are untested.", [I + "costs/cost-sum.hxx", I + "costs/residual.hxx"], [("addCost, removeCost, changeCostStatus, calc, calcDiff", I + "costs/cost-sum.hxx")])
prop("C24", "Constraint managers stack exactly the active constraints with their bounds",
     "After any sequence of adding, removing, enabling and disabling constraints, the manager's stacked values, Jacobians, bounds and dimensions (running and terminal) are those of the active constraints in name order, matching a simple map model; constraint residuals apply bound handling and derivatives of their residual, and bound updates/removals take effect.",
     ["histories", "inputs"], "every history; running and terminal evaluations; equality, inequality and both kinds",
     ONLY + "constraints are untested.", [I + "constraints/constraint-manager.hxx", I + "constraints/residual.hxx", I + "constraint-base.hxx"], [("addConstraint, removeConstraint, changeConstraintStatus, calc, calcDiff", I + "constraints/constraint-manager.hxx")])
prop("C25", "Actuation and squashing maps are differentiated and inverted correctly",
     "The smooth saturation squashing maps every input into its limits, monotonically, with the exact derivative; the squashed actuation composes squashing and inner actuation with the chain rule, and commands and torque transforms of actuation models are mutually consistent.",
     ["inputs"], "all limits, smoothness values, inputs, inner actuations",
     ONLY + "actuations are untested.", [I + "actuation/actuation-squashing.hpp", I + "actuation/squashing/smooth-sat.hpp", I + "actuation-base.hxx"], [("calc/calcDiff", I + "actuation/*.hpp")])
prop("C26", "Numerical-difference models agree with the analytic ones",
     "Every NumDiff model (action, differential action, state, activation, residual, cost, constraint, actuation, control) returns the value of the wrapped model unchanged, and derivatives equal to the true ones within the finite-difference error, cost Hessians included for actions (Gauss-Newton ones where chosen; the activation Hessian is documented as a placeholder), in any call order and for any disturbance in its admissible range, without altering the wrapped model's value, bounds or residual.",
     ["inputs", "histories"], "all wrapped smooth models, points, call orders (running/terminal, repeated)",
     "test_controls covers only the control wrapper.", [I + "numdiff/"], [("calc/calcDiff", I + "numdiff/*.hxx")])
prop("C27", "Model evaluation is a pure function of its inputs",
     "Evaluating any model writes only into the data it was given: results depend on the inputs and parameters, not on previous evaluations with that data, on other data of the same model, on the contents of the data before, or on evaluations through a copy of the model, which has the same parameters, limits and bounds; inputs are never modified.",
     ["histories", "inputs"], "every model type; interleaved evaluations over several datas and points, parameter changes in between",
     ONLY + "only single evaluations are done.", [I + "actions/", I + "costs/", I + "activations/", I + "integrator/", I + "action-base.hxx"], [("calc/calcDiff/createData", I + "**")])
prop("C28", "Casting between scalar types preserves the model",
     "Casting a state, action, activation, cost, constraint, residual, actuation, control or problem to float and back keeps its dimensions, bounds, weights, parameters and structure (finite-difference steps, which follow the scalar's precision, excepted), so that the cast model evaluates to the same values and derivatives up to float accuracy, and casting to the same scalar is exact.",
     ["inputs", "programs"], "every castable model with random parameters",
     ONLY + "casting is untested.", [I + "macros.hpp", I + "actions/", I + "costs/", I + "optctrl/shooting.hxx"], [("cast()", I + "**")])
prop("C29", "No memory error or undefined behaviour on any accepted use",
     "No sequence of API calls that the library accepts, nor any call it rejects with an exception, causes an out-of-bounds or use-after-free access, a read of uninitialised memory that changes a result, a null dereference, a leak or other undefined behaviour.",
     ["inputs", "histories", "fault_sequences"], "all workloads of the other checks and hostile call sequences, under AddressSanitizer and UndefinedBehaviorSanitizer",
     "The tests are not built with sanitizers and cover little of the code.", ["include/crocoddyl/core", "src/core"], [("all memory handling", "include/crocoddyl/core, src/core")])
prop("C30", "Diagnostics observe faithfully and change nothing",
     "Callbacks, printing, the stopwatch and the profiler do not change solver results or the formatting of the streams they print to; user callbacks see exactly the sequence of iterates, and the verbose callback prints, at every level and setting, the quantities of the iterate it observes; stopwatch counts, totals, minima, maxima, last and average times correspond to the start/pause/stop/reset calls made, and unknown names are rejected; solvers open and close their profiler regions in matched pairs (a region left by an exception excused, except that solve itself always closes its own).",
     ["histories", "inputs"], "all sequences of stopwatch calls; all solver runs with and without callbacks, profiler on or off",
     ONLY + "diagnostics are untested.", [S + "utils/callbacks.cpp", S + "utils/stop-watch.cpp", I + "utils/stop-watch.hpp"], [("CallbackVerbose, Stopwatch", S + "utils/")])
prop("C31", "Friction, wrench and CoP cones contain exactly the physical set",
     "For every friction coefficient, rotation, number of facets, box size and force limits, the inequality matrix and bounds of the friction cone, wrench cone and CoP support accept every force or wrench in the (inner-approximated) physical cone, reject those outside the outer/nominal cone (for the yaw torque of a wrench cone whose facets are not a multiple of four, within the documented four-sided approximation), and stay consistent after any parameter update.",
     ["inputs", "histories"], "all parameters and update sequences, random forces",
     "These files are not compiled by the tests.", ["include/crocoddyl/multibody/friction-cone.hxx", "include/crocoddyl/multibody/wrench-cone.hxx", "include/crocoddyl/multibody/cop-support.hxx"], [("update, set_*", "include/crocoddyl/multibody/*cone.hxx")])
prop("C32", "quasiStatic returns controls that hold the state",
     "For every model whose dynamics admit an equilibrium control at a zero-velocity state, quasiStatic returns a control for which the state is a fixed point of the dynamics within tolerance (or leaves a zero-control model untouched), at node and at problem level, leaves the states unchanged, and rejects wrong sizes.",
     ["inputs"], "fully actuated smooth models, vector and Lie-group states, integrated with every scheme",
     ONLY + "quasiStatic is untested.", [I + "action-base.hxx", I + "diff-action-base.hxx", I + "integrator/euler.hxx", I + "integrator/rk.hxx", I + "optctrl/shooting.hxx"], [("quasiStatic", I + "action-base.hxx")])
prop("C33", "Residual models and their costs/constraints report true derivatives",
     "Control, joint-effort and joint-acceleration residuals return the documented difference to their reference, with exact Jacobians for running and terminal evaluation, honour reference changes immediately, and feed residual costs and constraints whose gradients equal finite differences and whose Hessians are Gauss-Newton.",
     ["inputs", "histories"], "all references, actuations, dimensions",
     ONLY + "residuals are untested.", [I + "residuals/", I + "residual-base.hxx"], [("calc/calcDiff", I + "residuals/*.hxx")])
prop("C34", "Rigid-body dynamics, contacts and impulses are differentiated correctly",
     "The free and contact, forward and inverse dynamics actions and the impulse action return the solution of the rigid-body equations of motion under their active contacts or impulses (with armature, damping of the contact constraint, Baumgarte gains and restitution as documented), the forces as seen at every joint, and exact derivatives of all of them, for every robot, set of contacts, reference frame, actuation and state; upper and lower bounds of their inequality constraints are those of the stacked costs, and casts keep all parameters.",
     ["inputs", "histories"], "all robots (fixed and floating base), contact and impulse sets (1D, 2D, 3D, 6D, all reference frames, active and inactive), states, controls",
     "Not compiled by the tests (needs pinocchio).", ["include/crocoddyl/multibody/actions", "include/crocoddyl/multibody/contacts", "include/crocoddyl/multibody/impulses"],
     [("calc/calcDiff", "include/crocoddyl/multibody/actions/*.hxx"), ("contact and impulse models", "include/crocoddyl/multibody/contacts/*.hxx, include/crocoddyl/multibody/impulses/*.hxx")])
prop("C35", "Code-generated actions equal the interpreted ones",
     "An action compiled by code generation returns the same values and derivatives as the model it was generated from, for every input and parameter update.",
     ["inputs", "programs"], "all actions", "Not compiled by the tests (needs CppADCodeGen).", ["include/crocoddyl/core/codegen"], [("ActionModelCodeGen", I + "codegen/action.hxx")],
     na="needs CppAD/CppADCodeGen and pinocchio, which are not installed: the code cannot be compiled or executed here")
prop("C36", "Python bindings preserve semantics, lifetime and serialization",
     "Objects passed through the Python bindings keep values, shared ownership and pickled state, and derived Python classes are called back exactly as C++ ones.",
     ["programs", "histories"], "all bound classes", "Not built by the tests.", ["bindings/python"], [("bindings", "bindings/python/crocoddyl")],
     na="needs eigenpy, Boost.Python and pinocchio: the bindings cannot be built here")
prop("C37", "Multibody states and actuations obey their group and actuation maps",
     "For every robot, the multibody state's integrate and diff are inverse maps on its manifold with exact Jacobians and transports, in every assignment mode and whatever the outputs held before; its limits are the robot's, follow the changes made and survive casts; full, floating-base and thruster actuations map controls to joint efforts as documented, with exact derivatives, torque transforms, command inverses and selected joints, also after the thrusters change, for every data and after casts.",
     ["inputs", "histories"], "all robots (fixed, free-flyer and spherical bases), states, tangents, thruster sets and histories of changes over several datas",
     "Not compiled by the tests (needs pinocchio).", ["include/crocoddyl/multibody/states", "include/crocoddyl/multibody/actuations"],
     [("StateMultibody", "include/crocoddyl/multibody/states/multibody.hxx"), ("calc/calcDiff/commands", "include/crocoddyl/multibody/actuations/*.hxx")])
prop("C38", "Stacks of contacts and impulses follow every change of their members",
     "After any history of adding, removing, enabling, disabling and re-referencing contacts or impulses, and of switching between computing all or only active ones, the active dimension, the active and inactive sets, the stacked Jacobians, accelerations, velocities and derivatives, and the forces given to each joint (adding up where contacts share one, zero for inactive ones) are those of exactly the members then present; duplicates and unknown names change nothing, every data may be reused as long as its members last, and casts keep members, status and parameters.",
     ["histories", "inputs"], "all histories over 1D, 2D, 3D and 6D contacts and 3D and 6D impulses in every reference frame, evaluated on several datas",
     "Not compiled by the tests (needs pinocchio).", ["include/crocoddyl/multibody/contacts", "include/crocoddyl/multibody/impulses"],
     [("ContactModelMultiple", "include/crocoddyl/multibody/contacts/multiple-contacts.hxx"), ("ImpulseModelMultiple", "include/crocoddyl/multibody/impulses/multiple-impulses.hxx")])

NOTES = {}
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["d"]["title"]) <= 80, p["d"]["id"]
            f.write(json.dumps(p["d"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["d"]["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 run.py check " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py check " + i,
                               evidence_file="evidence/%s.json" % i, technique=c.get("technique") or "runtime monitors (independent oracle) over seeded generated workloads, instrumented build",
                               level="exploration", level_note=c.get("note") or "Held on every explored execution; bounded by the generated workloads. Trusts the compiler, Eigen and the harness oracle."))
        else:
            na.append(dict(property=i, reason=p["na"] or "no check built yet"))
    m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
             notes="No hooks are needed in /repo: protected solver functions are public and monitors attach by subclassing models and callbacks. Builds go to /verif/build (git-ignored).")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")
