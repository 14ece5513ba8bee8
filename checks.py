"""Which drivers decide which property (read by run.py)."""
CHECKS = {}


def add(prop, rule, runs=None, must=(), assumptions=(), parallel=1):
    CHECKS[prop] = dict(parallel=parallel, rule=rule, runs=runs or [dict(driver="drv_" + prop.lower())], must_observe=list(must), assumptions=list(assumptions))


add("C15", "seeded random problems mixing all action kinds, node-wise re-evaluation on fresh data and a call log; a case is "
    "non-trivial/distinct by the sequence of node kinds and dimensions", must=["rollouts", "model calls logged", "rejected calls"])
add("C16", "seeded edit histories (valid and rejected edits, copies, polls, evaluations) compared slot by slot with a list model; distinct = operation sequence",
    must=["edits", "rejected edits", "edited problems evaluated", "op set_runningModels", "op circularAppend", "op updateNode-terminal"])
add("C09", "seeded SPD QPs (n 1..12, condition 1..1e6), boxes mixing unbounded / two-sided / one-sided / degenerate bounds, random starts; distinct = "
    "(size, bound kinds, number of free variables)", must=["QPs", "ill-conditioned QPs", "QPs compared with enumeration", "solves after reuse", "clamped variables seen", "free variables seen"])
add("C20", "seeded parametrizations (order 0, 1, 2 RK3/RK4; nw 1..7), times incl. the nodes and ends, all assignment modes, against Lagrange interpolation; "
    "distinct = (kind, nw, case class)", must=["kind 0", "kind 1", "kind 2", "kind 3", "bounds converted"])
add("C21", "seeded states (vector nx 1..9, numerical-difference states over vector and SO(3) states), points, selections and assignment modes against finite differences "
    "and the group laws; distinct = (state kind, dimension, case class) and limit-setting histories",
    must=["kind vector", "kind numdiff-vector", "kind numdiff-so3", "Jacobians compared", "limit histories"])
add("C22", "seeded activations of every kind, parameters, residuals and parameter-change histories over several datas, against closed forms written from the documentation; "
    "distinct = (kind, size, curvature pattern) and change histories",
    must=["kind " + k for k in "quad wquad flatexp flatlog smooth1 smooth2 2norm barrier wbarrier smoothabs".split()] + ["parameter changes", "bounds objects", "default parameters"])
add("C25", "seeded saturations (limits, smoothness changes) and squashed actuations over nonlinear state-dependent inner actuations against closed forms and finite "
    "differences; distinct = (dimensions, saturation pattern, state dependence)", must=["saturation points", "squashed points", "torque transforms"])
add("C23", "seeded histories of add / duplicate add / remove / enable / disable / re-weight over nonlinear residual costs (all activations, q/v/u dependences), evaluated on "
    "several datas and in shared memory against a map model; distinct = operation history",
    must=["adds", "duplicate adds", "removals", "status changes", "running evaluations", "terminal evaluations", "evaluations in shared memory", "single costs"])
add("C24", "seeded histories of add / duplicate add / remove / enable / disable / new bounds over equality, inequality and mixed constraints, running and terminal, in own and "
    "shared memory, against a map model; distinct = operation history",
    must=["adds", "duplicate adds", "removals", "status changes", "bound updates", "running evaluations", "terminal evaluations", "evaluations in shared memory",
          "bounds removed", "invalid bounds", "residual constraints"])
add("C33", "seeded residuals of the three kinds and every constructor over vector and Lie-group states, joint data filled from smooth functions with exact derivatives, "
    "reference-change histories, running/terminal evaluations, each also through a residual cost (all activations) and a residual constraint; "
    "distinct = (kind, constructor, history, activation, dimensions)",
    must=["control", "effort", "acceleration", "forward-dynamics effort", "wrong references", "terminal costs", "running costs", "constraints"])
add("C18", "seeded LQR / differential LQR / unicycle models of every constructor with parameter-change histories against their formulas, and every action kind (integrated ones too, "
    "vector and Lie-group states, constraints) against fourth-order finite differences; distinct = (kind, constructor, dimensions, history)",
    must=["lqr constructor %d" % i for i in range(5)] + ["difflqr constructor %d" % i for i in range(5)] +
    ["unicycles", "parameter changes", "rejected parameters", "running points", "terminal points", "actions against finite differences", "constrained"])
add("C19", "seeded differential models (linear and nonlinear, vector and Lie-group states, constraints, residuals), all control parametrizations, Euler/RK2/RK3/RK4, time-step and "
    "model changes, against a stage-by-stage re-implementation, its finite differences, and measured local error orders; distinct = (integrator, control, dimensions, history)",
    must=["integrator %d" % i for i in (0, 2, 3, 4)] + ["control %d" % i for i in range(4)] + ["time-step changes", "model changes", "zero steps", "running points", "terminal points", "orders measured"])

add("C01", "seeded nonlinear / LQ / mixed problems (vector and Lie-group states, autonomous nodes, varying nu, limits), every solver and warm-start kind, repeated and moved "
    "solves; every callback and every return replays the trajectory on fresh data; distinct = (solver, warm start, horizon, dimensions, iterations)",
    runs=[dict(driver="drv_c01", scale=10, scale_thorough=1)],
    must=["solves " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT".split()] + ["Ipopt convergences", "feasible verdicts checked", "infeasible verdicts seen", "re-solves from moved initial states"])
add("C02", "seeded problems with inequality/equality constraints (running and terminal), both norms, every solver; each callback recomputes cost, gaps and figures from "
    "fresh data; distinct = (solver, warm start, norm, dimensions, iterations)",
    runs=[dict(driver="drv_c02", scale=10, scale_thorough=1)],
    must=["gap lists compared", "costs compared", "L1 figures", "LInf figures", "inequality violations seen", "equality violations seen", "accepted steps", "solves Ipopt"])
add("C03", "seeded strictly convex LQ problems (drift, cross and linear terms, varying nu, integrated double integrators), all solvers and warm starts, against one dense KKT "
    "solve; distinct = (solver, warm start, dimensions)",
    runs=[dict(driver="drv_c03", scale=10, scale_thorough=1)],
    must=["solves " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT Ipopt".split()] + ["full steps " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT".split()] + ["predictions compared DDP"])
add("C04", "seeded solves of the DDP family with random settings on convex and non-convex problems; the solver's virtual steps and callbacks are recorded and an automaton "
    "replays the trace against the documented rules; distinct = trace shapes (trials per iteration, acceptance, feasibility)",
    runs=[dict(driver="drv_c04", scale=10, scale_thorough=2)],
    must=["solves " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro".split()] + ["iterations checked", "steps accepted", "steps rejected", "ascent steps accepted", "directions failed", "trials failed",
          "merit steps accepted", "merit steps rejected", "ended at the largest regularisation", "line searches without step", "convergences", "KKT solves"])

add("C05", "seeded smooth problems (vector and Lie-group states, autonomous nodes, varying nu), all solvers, thresholds 1e-13..1e-5; at every reported convergence the reduced "
    "gradient and Hessian are rebuilt from fresh derivatives (the gradient also measured by finite differences of the rolled-out cost); distinct = (solver, warm start, dimensions, iterations)",
    runs=[dict(driver="drv_c05", scale=10, scale_thorough=3)],
    must=["convergences " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT Ipopt".split()] + ["convergences from a stationary guess " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro".split()] + ["search points judged", "directional slopes measured"] +
    ["stopping values compared " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro".split()])
add("C06", "seeded problems and points with and without gaps, feasibility claims, regularisations incl. none, every solver; every search direction inside solves too; a dense "
    "stage-by-stage recursion on fresh derivatives is the reference; distinct = (solver, point kinds, dimensions)",
    runs=[dict(driver="drv_c06", scale=8, scale_thorough=2)],
    must=["recursions " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT".split()] + ["recursions with gaps", "directions inside solves", "regularisation changes", "nodes without controls",
          "constrained stages compared", "limited stages compared", "backward passes refused", "recursions with gaps ignored by a feasibility claim"])
add("C07", "seeded problems and points with gaps, step lengths in [0,1], every solver; each trial trajectory is re-evaluated on fresh data; distinct = (solver, points, dimensions)",
    runs=[dict(driver="drv_c07", scale=10, scale_thorough=4)],
    must=["trials " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT".split()] + ["partial steps over gaps", "closing steps", "steps from feasible points", "clamped controls", "improvement models", "slopes"] +
    ["exact predictions " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT".split()])
add("C08", "seeded problems with two-sided, one-sided, mixed, degenerate and absent limits, varying nu; all trials, iterates and stage QPs judged, LQ optima by the projected "
    "gradient; distinct = (solver, limit kinds per node, warm start, iterations)",
    runs=[dict(driver="drv_c08", scale=10, scale_thorough=3)],
    must=["proposed sequences", "controls on a limit", "iterates judged", "stages compared", "clamped coordinates", "coordinates moving onto a limit", "optima BoxDDP", "optima BoxFDDP",
          "active limits at the optimum"])
add("C10", "seeded strictly convex LQ problems with full-row-rank stage equalities and nonlinear constrained problems, three null-space methods, every warm start, against a dense KKT "
    "solve, the linearised constraint and each other; distinct = (method, warm start, dimensions, constraints per node)",
    runs=[dict(driver="drv_c10", scale=10, scale_thorough=3)],
    must=["constrained solves LU", "constrained solves QR", "constrained solves Schur", "directions compared", "constrained stages", "nonlinear convergences", "redundant solves LU", "redundant solves QR", "more constraints than controls"])
add("C11", "seeded shooting problems (vector and Lie-group states, varying nu, nodes without controls, limits, LQ ones with random multipliers) handed to the Ipopt interface; random "
    "orders of callbacks at several points into guarded arrays, before and after edits; and complete Ipopt solves with and without limits; distinct = (problem kind, callback order, size)",
    runs=[dict(driver="drv_c11", scale=4, scale_thorough=2)],
    must=["objectives", "constraint vectors", "gradients", "Jacobians", "Hessians", "finalisations", "edited problems", "limited controls", "pair j>h", "pair g>d", "pair h>f", "pair f>j",
          "solutions lq", "solutions nl with limits", "active limits", "edits between solves"])
add("C12", "seeded histories of valid and invalid warm starts (empty, short, long, one wrong entry at either end or inside) through setCandidate, set_xs, set_us and solve, for every solver, "
    "against a stored-candidate model; and the recorded model calls of every solve's first evaluation; distinct = (solver, history, horizon)",
    runs=[dict(driver="drv_c12", scale=10, scale_thorough=3)],
    must=["candidates stored", "candidates rejected", "refused solves", "own lists", "set_xs", "set_us", "first evaluations"] + ["histories " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT Ipopt".split()]
    + ["controls one-smaller", "controls last-larger", "states first-larger", "states one-emptied", "controls short"])
add("C13", "seeded histories of node replacements, appends, terminal and initial-state changes, limit and setting changes, refused and manual steps between solves, second solvers on the "
    "same problem; each solve is compared with a new solver on a newly built problem, iteration by iteration; distinct = (solver, history)",
    runs=[dict(driver="drv_c13", scale=4, scale_thorough=2)],
    must=["solves compared " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT Ipopt".split()] + ["repetitions", "iterates compared", "box solutions compared", "two solvers on one problem", "fresh solves compared"]
    + ["step " + k for k in "A M N R T a b h l s t x z".split()])
add("C14", "seeded histories interleaving documented-invalid calls (sizes, ranges, empty lists, indices, inverted bounds) with valid ones on solvers, BoxQP, states, actions, activations, "
    "costs, constraints, squashings, parametrizations, finite-difference wrappers and problems; every observable value compared before/after; distinct = (object kind, dimensions)",
    runs=[dict(driver="drv_c14", scale=4, scale_thorough=4)],
    must=["rejections", "values stored", "step lists", "LQ models stored", "foreign datas", "alien tangent spaces", "equal bounds stored"] +
    ["rejected " + k for k in "activation actuation bounds boxqp constraint control cost difflqr eval integrated lqr numdiff problem residual solver squash state unicycle".split()])

add("C26", "seeded finite-difference wrappers of every kind (action, differential action, state, activation, residual, cost, constraint, actuation, control) over random smooth models, steps "
    "3e-9..1e-5 and the default one, several datas, interleaved running/terminal/repeated orders, Hessians in the release configuration; distinct = (kind, dimensions, orders)",
    runs=[dict(driver="drv_c26", variant="rel", scale=3, scale_thorough=3)],
    must=["actions", "differential actions", "activation points", "actuation points", "control points", "state points", "Hessians", "Gauss-Newton Hessians", "chosen steps", "re-evaluated shared data",
          "running residuals", "terminal residuals", "running costs", "terminal costs", "running constraints", "terminal constraints"])
add("C17", "ThreadSanitizer over seeded problems of 2..12 nodes drawn from 1..3 models (integrated sums of costs, LQ, user models, finite differences, terminal model also running), 2..8 threads, "
    "random evaluation sequences, whole solves of every solver and Ipopt callbacks; OpenMP replaced by a stand-in that permutes and delays shares; every data compared with serial evaluation; "
    "distinct = (models, sequence) and observed schedules",
    runs=[dict(driver="drv_c17", variant="tsan", scale=5, scale_thorough=2, cpu=120)],
    must=["problems with shared models", "problems whose terminal model is also a running one", "nodes compared", "iterates compared", "threads forked", "configurations tried"]
    + ["problems with %d threads" % n for n in range(2, 9)] + ["parallel regions: " + k for k in "calc calcDiff quasiStatic nlp DDP FDDP BoxDDP BoxFDDP Intro KKT Ipopt".split()]
    + ["nlp callbacks " + k for k in "fgdjh"])

add("C27", "seeded operation sequences over every core model kind: calc/calcDiff running and terminal, repeated, on several datas, datas created late, datas pre-filled with hostile numbers, "
    "parameter changes in between, evaluations through copies, value/derivative calls split; every field compared with a fresh data and inputs compared bitwise; distinct = (kind, dimensions, sequence)",
    runs=[dict(driver="drv_c27", scale=4, scale_thorough=6)],
    must=["op " + k for k in "again calc calcDiff copy extra hostile reference split".split()] + ["op new data", "datas compared"]
    + ["change " + k for k in "alpha bounds cstatus disturbance dt limits reference set_LQR smooth status weight weights".split()]
    + ["histories of " + k for k in "action-euler action-lqr action-nl action-numdiff action-plain action-rk action-unicycle activation-2norm activation-barrier activation-flatexp activation-flatlog "
       "activation-numdiff activation-quad activation-smooth1 activation-smooth2 activation-smoothabs activation-wbarrier activation-wquad actuation-numdiff actuation-squashing actuation-user "
       "constraint-residual control-0 control-1 control-2 control-3 control-numdiff cost-numdiff cost-residual cost-sum diff-lqr diff-nl diff-numdiff diff-plain diff-sum residual-acceleration "
       "residual-control residual-effort residual-user".split()])

add("C28", "seeded models of every castable core kind with float-representable parameters (limits, bounds, weights, statuses, removed bounds, time steps set), cast to float, back and to the same scalar, "
    "through the base class and typed; dimensions, bounds, parameters and printed form compared, values and derivatives in float within 2e-3 and exactly after the round trip, also after changing the original; "
    "distinct = (kind, dimensions)",
    runs=[dict(driver="drv_c28", scale=6, scale_thorough=8)],
    must=["casts of " + k for k in "action-euler action-lqr action-numdiff action-rk action-unicycle activation-2norm activation-barrier activation-flatexp activation-flatlog activation-numdiff activation-quad "
          "activation-smooth1 activation-smooth2 activation-wbarrier activation-wquad actuation-numdiff actuation-squashing actuation-user constraint-manager constraint-numdiff constraint-residual "
          "control-numdiff control-one control-two control-zero cost-numdiff cost-residual cost-sum diff-lqr diff-numdiff diff-sum problem residual-acceleration residual-control residual-effort "
          "residual-numdiff residual-user squashing state-numdiff state-vector".split()] + ["changed originals", "same-scalar casts", "values compared", "bounds given to casts", "casts of bounds"])

add("C31", "seeded cones and supports (rotations incl. identity, right-angle turns and tiny ones, friction 0..3, 4..64 facets and odd requests, inner/outer, one- and two-sided force limits, boxes incl. zero and unbounded sides), constructed, copied, "
    "assigned, cast to float, updated by every setter and update(...); forces and wrenches sampled from the physical description (Coulomb, corner forces, pressure inside the box) must be accepted, those outside rejected, accepted wrenches "
    "are re-explained by corner forces (NNLS), and the quadratic barrier must agree; distinct = (kind, facets, approximation, limits, update sequence)",
    runs=[dict(driver="drv_c31", scale=8, scale_thorough=10)],
    must="barrier cop_points cop_updates friction_inside friction_normal friction_outside friction_polygon friction_updates set_nsurf unbounded update_normal wrench_inside wrench_nnls_accepted wrench_nnls_rejected wrench_outside wrench_updates".split())

add("C30", "seeded stopwatch histories (start/pause/stop/reset/report on several watches, both clocks, unknown names, inactive watches) against a model fed with the very clock values the library read (interposed), "
    "solves of every solver with and without profiler/callbacks/other verbose settings compared bitwise, profiler events checked for pairing, every printed verbose number compared with the solver, stream flags compared; "
    "distinct = (history) and (solver, level, settings)",
    runs=[dict(driver="drv_c30", scale=6, scale_thorough=6)],
    must=["starts", "stops", "pauses", "resets", "reports", "watchers", "silent watchers", "inactive watchers", "unknown names", "records compared", "iterates compared", "solves that gave up"]
    + ["profiled solves of " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT Ipopt".split()] + ["verbose level %d" % k for k in range(5)]
    + ["printed " + k for k in "action activation control diff integrated problem state".split()])

add("C32", "seeded zero-velocity states (vector and Lie-group) of LQ, nonlinear, unicycle, differential, summed and integrated models (every integrator x control), under-, fully and over-actuated, from zero and random starts, "
    "datas fresh or used; the returned control must hold the state and equal an independent minimum-norm Newton iteration; problems node by node, and rollouts of the posture; distinct = (kind, dimensions, start)",
    runs=[dict(driver="drv_c32", scale=6, scale_thorough=10), dict(driver="drv_c32", variant="rel", scale=4, scale_thorough=2)],
    must=["equilibria of " + k for k in ("lqr nl unicycle dlqr dnl dsum " + " ".join("int%dc%d" % (i, j) for i in (0, 2, 3, 4) for j in range(4))).split()]
    + ["models without controls", "nodes without controls", "nodes held", "postures held over several nodes", "known equilibria", "least-squares controls", "wrong sizes rejected",
       "numerically differentiated actions", "numerically differentiated models", "calls without iterations"])

_ASAN = {"c01": .5, "c02": .4, "c03": .5, "c04": .3, "c05": .2, "c06": .3, "c07": .5, "c08": .5, "c09": .5, "c10": .4, "c11": .1, "c12": .4, "c13": .1, "c14": 1, "c15": 1, "c16": 1, "c18": .2,
         "c19": .1, "c20": 1, "c21": 1, "c22": 1, "c23": 1, "c24": 1, "c25": 1, "c26": .1, "c27": .4, "c28": .4, "c30": .3, "c31": .4, "c32": .4, "c33": .6}
_VG = {"c08": .03, "c10": .03, "c13": .01, "c14": .1, "c16": .3, "c24": .1, "c27": .1, "c28": .1, "c31": .1, "c32": .05}
add("C29", "the workloads of all other properties (solvers, models, edits, rejected calls, casts, finite differences, cones, diagnostics) and hostile histories of its own - user models and callbacks that throw or return "
    "NaN/infinite/huge values at a chosen call, objects released in any order, edits of sums and managers under datas in use, degenerate sizes - under AddressSanitizer + LeakSanitizer + UndefinedBehaviorSanitizer with "
    "assertions on, and a part of them under valgrind memcheck for reads of uninitialised memory; distinct = situations the workloads declare",
    parallel=8,
    runs=[dict(driver="drv_c29", variant="asan", shards=4, leaks=True, scale=2, scale_thorough=1, cpu=120), dict(driver="drv_c29", variant="vg", valgrind=True, shards=4, scale=.04, scale_thorough=.1, cpu=900)]
    + [dict(driver="drv_" + k, variant="vg", valgrind=True, memory=True, borrowed=True, shards=2, scale=v, scale_thorough=v, cpu=300) for k, v in sorted(_VG.items())]
    + [dict(driver="drv_" + k, variant="asan", memory=True, borrowed=True, leaks=True, shards=1, scale=v, scale_thorough=v, cpu=120) for k, v in sorted(_ASAN.items())],
    must=["cases of drv_%s (asan)" % k for k in sorted(_ASAN)] + ["cases of drv_%s (vg)" % k for k in sorted(_VG)]
    + ["histories of " + k for k in "DDP FDDP BoxDDP BoxFDDP Intro KKT Ipopt".split()] + ["faults of mode %d" % k for k in range(4)]
    + ["solves that passed an exception on", "solves that ended", "release orders", "wrappers outliving their problem", "evaluations under edits", "refusals", "solves without controls", "one-node solves",
       "degenerate QPs", "degenerate quasiStatic"] + ["dependent constraints, " + k for k in "LU QR Schur".split()])
add("C34", "seeded random robots (fixed and floating base, revolute and prismatic joints, armature) on a stand-in of pinocchio that is itself checked against first principles; free / "
    "contact / impulse dynamics, forward and inverse, 1D/2D/3D/6D contacts and impulses in every reference frame, active and inactive, sharing joints; residuals of the equations "
    "of motion and finite differences; distinct = (scenario, robot, contact set, options)",
    must=["free forward dynamics points", "free forward dynamics points with armature", "contact forward dynamics points", "contacts sharing a joint", "impulse points",
          "impulse points with restitution", "free inverse dynamics points", "contact inverse dynamics points", "casts"],
    runs=[dict(driver="drv_c34", scale=8, scale_thorough=2)],
    assumptions=["pinocchio is not installed: the multibody code runs on pin/pinocchio/mini.hpp, a stand-in written for this check from the published algorithms and "
                 "checked by the stand_in scenario against finite differences and first principles"])
MINI = ["pinocchio is not installed: the multibody code runs on pin/pinocchio/mini.hpp, a stand-in written for these checks from the published algorithms and judged by C34's stand_in scenario"]
add("C37", "seeded random robots (fixed, free-flyer and spherical bases; revolute, prismatic and spherical joints): group laws and Jacobians of the state against finite differences with "
    "outputs holding NaN or anything, limit-setting histories, casts; full, floating-base and thruster actuations over histories of evaluations on several datas, thruster changes and "
    "casts against formulas written from the documentation; distinct = (robot, history)",
    must=["manifold points", "Jacobians compared", "limits and casts", "limit changes", "full actuations", "floating-base actuations", "thruster histories", "thruster changes", "casts"],
    runs=[dict(driver="drv_c37", scale=3, scale_thorough=2)], assumptions=MINI)
add("C38", "seeded histories of add / duplicate add / remove / enable / disable / new references / compute-all switches over 1D, 2D, 3D and 6D contacts (3D and 6D impulses) in every "
    "reference frame, evaluated on several datas, casts and refused uses, against a map model whose rows, forces and derivatives are computed from the recursions and finite "
    "differences; distinct = (robot, history)",
    must=["additions", "duplicate additions", "removals", "status changes", "reference changes", "evaluations of all contacts", "evaluations of active contacts",
          "evaluations of impulses", "contact derivatives", "impulse derivatives", "contacts sharing a joint", "casts"],
    runs=[dict(driver="drv_c38", scale=4, scale_thorough=2)], assumptions=MINI)
