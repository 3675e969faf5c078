"""Which harnesses decide which property, and what each check claims."""


def st(harness, variant="seq", **kw):
    return dict(harness=harness, variant=variant, **kw)


BASE = ("Trusts gcc, Eigen and the harness' reference. Inputs are drawn from stated finite alphabets only; "
        "nothing is claimed about values outside them. ")
MINI = "The rigid-body library is a stand-in (harness/mini), itself checked against finite differences by C32. "
DIRECT = "stateless model checking of the real code: exhaustive bounded enumeration of "

CHECKS = {
    "C01": {
        "stages": [st("p_report")],
        "technique": DIRECT + "solver, problem, guess and iteration-limit configurations, with the reports of every iteration compared with direct evaluation",
        "note": BASE + "Complete for the seven gradient-based solvers (KKT apart from its recorded finding), three state kinds, horizons 1-3, 0-2 controls per node, control limits, linear and nonlinear models, four guesses, iteration limits 1, 2 and 40, and for 0-2 equalities and 0 or 2 inequalities per node including the terminal one with both norms and two successive solves (thorough: more seeds and terminal constraint shapes). Constraint figures are those of the trajectory the derivatives were taken on.",
    },
    "C02": {
        "stages": [st("p_lq")],
        "technique": DIRECT + "linear-quadratic problems, solvers and guesses, against the dense quadratic program",
        "note": BASE + "Complete for eight solvers, horizons 1-3 (thorough: 4) with 0-3 controls at each node, and horizons 5, 9 and 20 in four control patterns, three convexity levels, four guesses, two regularisations, vector and curved states (curved: linear in coordinates). Tolerances are relative (1e-6); an instance too ill-conditioned for them would be reported, none is.",
    },
    "C03": {
        "stages": [st("p_box")],
        "technique": DIRECT + "control-limit patterns, problems and guesses, with every trial and iterate checked against the limits and the solution against enumerated active sets",
        "note": BASE + "Complete for both box solvers, horizons 1-2 (thorough: 3), 0-2 controls per node, six limit patterns per node (none, one-sided, two-sided, equal, partly infinite), two dynamics, two stopping thresholds, four guesses; nonlinear problems in three state kinds and three step-length lists only for staying within the limits. Non-convergence is excused for guesses outside the limits that are said to be feasible and for Box-FDDP from infeasible guesses.",
    },
    "C04": {
        "stages": [st("p_machine")],
        "technique": DIRECT + "scripted outcomes of every direction and step around the real solver loops against a reference machine, and of non-convex problems judged at every callback",
        "note": BASE + "Scripted: directions, steps and stopping measures of the real solve loops are replaced by every sequence of outcomes from a menu (accepted, rejected on either side of the threshold, throwing, NaN) for two iterations with six solvers and five regularisation settings, three iterations with a smaller menu, and eight iterations with up to three deviations from the benign answer (thorough: four); real: non-convex problems, judged at every callback. Intro's merit acceptance is judged in the scripted part only.",
    },
    "C05": {
        "stages": [st("p_machine")],
        "technique": DIRECT + "scripted outcomes of every direction, step and stopping measure around the real solver loops against a reference state machine",
        "note": BASE + "As C04 (same machine), plus problems on which no direction can ever be computed for all combinations of minimum, maximum and initial regularisation. The reference machine is a direct transcription of the statement and shares no code with the solvers.",
    },
    "C06": {
        "stages": [st("p_faults")],
        "technique": DIRECT + "fault points: every model evaluation of a solve fails in every listed way (one fault, and all pairs), with the real solver judged after every iteration and against a new solver afterwards",
        "note": BASE + "Complete for eight solvers, three guesses, three step-length lists, four node patterns: one fault (throw, NaN or infinite cost, NaN or infinite next state, non-finite derivatives) at every evaluation of a solve, and every pair on a smaller set (thorough: triples). Built without multi-threading: an exception inside an OpenMP loop ends the process. A solve counts as endless after 60 s of processor time (confirmed alone with a longer limit).",
    },
    "C07": {
        "stages": [st("p_reuse")],
        "technique": DIRECT + "histories of solves, failed solves and edits of the problem, with every solve compared bitwise with that of a new solver on a new problem",
        "note": BASE + "Complete for histories of three operations (thorough: four) of twelve kinds before the judged solve with one solver, and two (three) of eight kinds with two solvers sharing a problem; eight solvers, two state kinds, 0-3 controls in replaced nodes. Comparison is bitwise except for box solvers with active limits (2e-3). The actual reduction is not compared when no step could be evaluated.",
    },
    "C08": {
        "stages": [st("p_riccati")],
        "technique": DIRECT + "problems, guesses, regularisations and step lengths, with every direction the real solvers compute compared with an independent recursion and every expected improvement with the real one",
        "note": BASE + "Complete for seven solvers, three state kinds, seven node patterns, convex and indefinite Hessians, regularisations 0, 1e-9, 1e-2 and 10, three guesses, two successive directions, steps 1 and 0.5 (first order: 1e-4 to 1e-6). Directions of box solvers with limits and an indefinite control Hessian are not judged. Instances whose recursion exceeds 1e3 in norm, or is within 1e-6 of losing definiteness, are counted as outcome 'degenerate' and not compared.",
    },
    "C09": {
        "stages": [st("p_intro")],
        "technique": DIRECT + "equality-constrained linear-quadratic problems, resolutions and guesses, and of reuse histories switching resolutions, against the dense quadratic program",
        "note": BASE + "Complete for three resolutions, horizons 1-3 (thorough: 4), seven combinations of controls and constraints per node, two dynamics, four guesses; histories of three solves that switch resolution. Nonlinear problems compare the resolutions iteration by iteration until the violation is below 1e-8. Instances with nearly dependent constraints (smallest singular value below 0.15) or a cost above 300 are pruned and counted.",
    },
    "C10": {
        "stages": [st("p_ipopt")],
        "technique": DIRECT + "problems, evaluation points and orders of the back end's callbacks, edits and solves, with the program handed to Ipopt compared with one evaluated from the models alone",
        "note": BASE + "Complete for the back end's five callbacks in all orders of length three (thorough: four) at two points over node menus with 0-3 controls and limits, edits between solves, and a failing evaluation at every index (thorough: pairs). Whole solves use the installed Ipopt 3.11 with MUMPS, with seven limit patterns per node. Non-finite derivatives crash MUMPS unless Ipopt's own check is on and are not explored; curved states only with nodes without state-dependent adjoints.",
    },
    "C11": {
        "stages": [st("p_boxqp")],
        "technique": DIRECT + "small quadratics and of solver reuse histories against a brute-force active-set reference",
        "note": BASE + "Complete over dimension <= 3 (thorough: 4) with the listed Hessian, gradient, box and start alphabets "
                       "and all reuse histories of length 4 (thorough: 5) over six problems of three sizes, one of them failing.",
    },
    "C12": {
        "stages": [st("p_eval")],
        "technique": DIRECT + "problems over a menu of node kinds and of evaluation histories, against evaluating each node alone",
        "note": BASE + "Complete for horizons 1-3 (thorough: 4), eight node kinds (plain, constrained, Euler and Runge-Kutta integrated, unicycle, LQR, shared models), three terminal nodes, three constructors and sequences of two or three evaluations including derivatives taken elsewhere than the values; quasi-static controls of linear dynamics with as many or more controls than accelerations.",
    },
    "C13": {
        "stages": [st("p_edits")],
        "technique": DIRECT + "edit histories with valid and invalid arguments against a list model and a newly built problem",
        "note": BASE + "Complete for edit histories of length three (four at horizon 1 in the thorough tier) of eight kinds with valid and refused arguments (wrong state, wrong data, position beyond the end, incompatible model in first or last place), and for eight inconsistent constructions. Models whose data check looks at the type only are included.",
    },
    "C14": {
        "stages": [st("p_threads", "mt")],
        "technique": DIRECT + "thread schedules (decided at every model call and synchronisation operation, up to a preemption bound, by an OpenMP runtime under the explorer's control), with a vector-clock race check of every memory access and a bitwise comparison with one thread",
        "note": BASE + "Complete for 2-3 threads, horizons <= 4, 17 node kinds with shared and separate models, all sequences of two "
                       "operations with one preemption each at model calls (thorough: 4 threads, horizon 5, three operations, two preemptions), "
                       "Ipopt's callbacks, and whole solves of every solver with one preemption. Accesses made inside precompiled libraries "
                       "(libstdc++, Ipopt) are not seen; a static schedule is the only work distribution the loops ask for.",
    },
    "C15": {
        "stages": [st("p_costsum")],
        "technique": DIRECT + "edit and evaluation histories of the cost sum against a list model with closed-form terms",
        "note": BASE + "Complete for all histories of length four (thorough: five) over adding, removing, (de)activating, weighting and evaluating three terms with two data objects, in a vector and a curved state, refused edits included. Changing CostItem::active directly instead of through changeCostStatus is out of scope.",
    },
    "C16": {
        "stages": [st("p_constraints")],
        "technique": DIRECT + "edit and evaluation histories of the constraint manager against a list model with closed-form constraints",
        "note": BASE + "Complete for all histories of length four (thorough: five) over three constraints (equality, inequality, mixed; one for terminal nodes). Bounds are compared after the evaluation that follows a change. Out of scope: removing the bounds of a constraint that is already in a manager, and one manager shared by running and terminal nodes whose terminal constraints are not its first ones.",
    },
    "C17": {
        "stages": [st("p_residuals")],
        "technique": DIRECT + "residual, activation and dependency configurations and of evaluation histories on one data object, against closed-form compositions",
        "note": BASE + "Complete for eight dependency declarations, five activations, nr 1-2 (thorough: 3), nu 0-2, two state kinds, three evaluations (thorough: four) on one data object, running and terminal, with and without derivatives; bounds edits; the built-in residuals with data collectors of forward and inverse models. Residuals of the multibody part need pinocchio.",
    },
    "C18": {
        "stages": [st("p_integ")],
        "technique": DIRECT + "integrator configurations and evaluation/edit histories over two data objects, against the schemes' formulas in coordinates",
        "note": BASE + "Complete for Euler and three Runge-Kutta schemes, five control parametrisations, steps 0, 0.01, 0.3 and 1, four constraint shapes, with and without cost residual, and for histories of four operations (thorough: five) over two data objects including step-size changes and evaluations with NaN.",
    },
    "C19": {
        "stages": [st("p_integdiff")],
        "technique": DIRECT + "integrator configurations and evaluation/edit histories over two data objects, against the chain rule in coordinates",
        "note": BASE + "As C18, with the chain rule in coordinates computed independently; Hessians are compared where the scheme defines them exactly from the inner model (Gauss-Newton composition).",
    },
    "C20": {
        "stages": [st("p_controls")],
        "technique": DIRECT + "evaluation and product histories over two data objects, and of bounds, against Lagrange interpolation",
        "note": BASE + "Complete for four parametrisations, one to two (thorough: three) control dimensions, seven times, two parameter vectors, three assignment modes, zero to two rows, histories of three (thorough: four) operations over two data objects, and all bound combinations with infinities. Products are taken after calc, as their documentation demands.",
    },
    "C21": {
        "stages": [st("p_actions")],
        "technique": DIRECT + "construction, edit and evaluation histories over two data objects against the closed-form definitions",
        "note": BASE + "Complete for six dimension combinations (with and without constraints), seven constructors, five operations (thorough: six) over two data objects including refused edits, for the discrete and continuous LQR models; all getters; the unicycle with four (six) operations over parameter and step changes.",
    },
    "C22": {
        "stages": [st("p_activations")],
        "technique": DIRECT + "evaluation points and of parameter-edit histories over several data objects, against the documented functions",
        "note": BASE + "Complete for ten activation kinds, one to three residuals (thorough: four) over a lattice with every kink, three parameter sets, five operations (thorough: six) over two data objects, and all constructions of bounds from finite and infinite limits and widths. At kinks either one-sided Hessian is accepted; the 2-norm barrier is not differentiated at zero.",
    },
    "C23": {
        "stages": [st("p_states")],
        "technique": DIRECT + "points, displacements, Jacobian components and assignment modes, and of limit edit histories",
        "note": BASE + "Complete for vector states up to dimension four (thorough: five) over a value lattice, the harness's curved state and the numerically differentiated states over sampled points, three components, three assignment modes, pre-filled outputs, all wrong sizes, and limit edits of length four (five).",
    },
    "C24": {
        "stages": [st("p_numdiff"), st("p_contacts", "mb", only="numdiff")],
        "technique": DIRECT + "wrapped models, disturbances, evaluation histories and failing inner evaluations, against the exact derivatives and against new data",
        "note": BASE + "Complete for eleven wrappers over the listed models (five action kinds, nine activations, residual, cost and constraint kinds, squashed actuation, four control parametrisations, two states; the contacts of three robots), three disturbances, two evaluations (thorough: three) on one data object, with an inner evaluation failing at each index. Tolerances follow the disturbance.",
    },
    "C25": {
        "stages": [st("p_args"),
                   st("p_dynamics", "mb", only="sizes,impulses", keys="wrong-size,refused-write,impulse-size,impulse-setters,impulse-refused"),
                   st("p_mbresiduals", "mb", only="refusals", keys="frame,reference-size,refused-reference,force-dimension,contact"),
                   st("p_mbstate", "mb", only="sizes,bounds", keys="wrong-size,unused-output,refused-write,limit-refusal,limits"),
                   st("p_contacts", "mb", only="contacts,impulses,contact-stack,impulse-stack", keys="sizes,data,refused"),
                   st("p_actuations", "mb", only="histories,copies", keys="calc-size,commands-size,thrusters-size,refused-wrote,no-base"),
                   st("p_collision", "mb", only="refusals")],
        "technique": DIRECT + "sequences of valid and invalid calls with boundary values, the object against a mirror that only receives the valid ones",
        "note": BASE + "Complete for sequences of two valid or invalid calls (three to four on small objects; thorough: one more) out of 12 menus with about 900 calls, each followed by a complete comparison (getters, evaluations, a solve) with a mirror object that received only the valid ones; 160 constructions. Judged violations are those the code documents or enforces elsewhere; NaN arguments, disturbance 0 and ranges that are only warned about are not judged. The refusals of the rigid-body models are judged where their own checks make them (sizes, dimensions, frames, pairs, references, statuses).",
    },
    "C26": {
        "stages": [st("p_casts", "seqf"),
                   st("p_dynamics", "mb", only="casts,impulses", keys="cast-dimensions,cast-limits,cast-values,cast-derivatives,impulse-cast,impulse-cast-dimensions"),
                   st("p_mbresiduals", "mb", only="casts"),
                   st("p_mbstate", "mb", only="bounds", keys="cast,cast-dimensions"),
                   st("p_contacts", "mb", only="contacts,impulses,contact-stack,impulse-stack", keys="cast"),
                   st("p_actuations", "mb", only="copies", keys="copies,copy-thrusters,copy-tau"),
                   st("p_collision", "mb", only="casts"),
                   st("p_cones", "mb", only="friction-history,wrench-history,support-history", keys="cast")],
        "technique": DIRECT + "edit histories before and after chains of casts, over every castable model, each version against the one it was cast from",
        "note": BASE + "Complete for 13 model families, up to two edits before (thorough: three) and one after the chain double-double-float-float-double, with two (four) input sets. Values are compared within float precision scaled by the operands; numerical differentiation with looser tolerances, its second differences of kinked functions not at all. The rigid-body models (dynamics, residuals, states, contacts, impulses, stacks, actuations, collision pairs, cones) are cast to the same scalar only, as the stand-in's robot has one.",
    },
    "C27": {
        "stages": [st("p_stopwatch")],
        "technique": DIRECT + "operation histories against a reference model, on a virtual clock",
        "note": BASE + "Complete for all operation sequences of length six (thorough: seven) over two names, two clock advances, both timing modes and both interfaces, on a virtual clock.",
    },
    "C28": {
        "stages": [st("p_squashing")],
        "technique": DIRECT + "evaluation and smoothing-edit histories over two data objects against the closed-form composition",
        "note": BASE + "Complete for the smooth saturation with three limit shapes and histories of four (thorough: five) operations, and for compositions with it and with a user-defined squashing that mixes its inputs, one to three controls, state-dependent and independent inner actuations, two state kinds, three (four) operations over two data objects. The inverse map (commands) of a squashed actuation is a linearisation and is only judged as the pseudo-inverse of its Jacobian.",
    },
    "C31": {
        "stages": [st("p_cones", "mb")],
        "technique": DIRECT + "rotations, coefficients, facet counts, boxes, force ranges, forces and wrenches, against corner forces and regular polygons, and of edit histories",
        "note": BASE + MINI + "Complete for the listed rotations, friction coefficients including zero, facet counts (even, odd, refused), boxes (including missing and negative ones), force ranges including infinite ones, and sampled directions of forces and wrenches; edit histories of length three (thorough: four) over all setters. Membership is judged outside a band of 1e-6 around the boundary.",
    },
    "C32": {
        "stages": [st("p_mbstate", "mb")],
        "technique": DIRECT + "robots, pairs of points, displacements, Jacobian components, assignment modes, wrong sizes and limit edits, against numerical differentiation; the stand-in rigid-body library is explored likewise against finite differences of placements",
        "note": BASE + MINI.replace("C32", "this check's section library") + "Complete for three robots (fixed, free-flying, planar base), four points, four displacements, three components, three assignments, transports of 1, 3 and ndx columns; every argument of every operation with three wrong sizes; limit edits to depth three (thorough: four) on models with and without a root joint.",
    },
    "C33": {
        "stages": [st("p_contacts", "mb", only="contacts,impulses,contact-stack,impulse-stack")],
        "technique": DIRECT + "contact kinds, reference frames, axes, gains, robots, frames and points, and of histories of edits of stacks and of re-used data, against numerically differentiated kinematics and inverse dynamics",
        "note": BASE + MINI + "Complete for four contact and two impulse kinds on three robots (fixed, free-flying and planar base), three frames, three points, three reference frames, three axes and four gain pairs, two evaluations with edits in between; stacks of three items with up to three edits (thorough: four) and a toggle between two evaluations of the same data. 2D contacts only on the planar robot; non-zero 1D references only in world axes.",
    },
    "C34": {
        "stages": [st("p_dynamics", "mb")],
        "technique": DIRECT + "kinds of dynamics, robots, contact stacks, options and points, and of histories of evaluations, edits and quasi-static controls that share data, against an independent solution of the equations of motion and its central differences",
        "note": BASE + MINI + "Complete for four kinds of dynamics and the impulse model on three robots (fixed, free-flying and planar base) with up to five contact stacks each, with and without constraints, force derivatives, armature, damping and restitution, three points; histories of three steps (thorough: four). 2D contacts only with forward dynamics (the inverse dynamics refuses them); every contact on a frame of its own; actuation: full and floating base.",
    },
    "C35": {
        "stages": [st("p_mbresiduals", "mb")],
        "technique": DIRECT + "residuals, dynamics and impacts, robots, contact stacks, frames, axes, ways of setting the reference, points and histories of data sharing a model, against values from the robot's motion and the solution of the equations of motion and their central differences",
        "note": BASE + MINI + "Complete for fourteen residuals in four kinds of dynamics and the impulse model, three robots, up to five contact stacks, every frame, axes and contact they fit, two references set in five ways, with and without other costs, new and used data, two (thorough: three) points; wrong frames, contacts and sizes enumerated. The derivative of the centroidal momentum rests on the stand-in serving it after every kind of dynamics derivatives. Not covered: the momentum in impulse models, set_id after data were created.",
    },
    "C36": {
        "stages": [st("p_actuations", "mb")],
        "technique": DIRECT + "actuations, robots, thruster layouts and histories of evaluations, torque maps, new data and changes of thrusters, against the wrenches the thrusters exert; the dynamics on top of every layout, against the equations of motion",
        "note": BASE + MINI + "Complete for full, floating-base and thruster actuations, nine layouts of one to six thrusters (aligned, tilted, redundant, rank-deficient), histories of four (thorough: five) operations on two data sharing a model; forward, free and contact inverse dynamics on every layout at three points.",
    },
    "C29": {
        "stages": [st("p_collision", "mb")],
        "technique": DIRECT + "geometry pairs, robots, dynamics, construction histories and evaluation histories, with residuals, Jacobians and costs compared with nearest points found by an independent minimisation",
        "note": BASE + MINI + "hpp-fcl and pinocchio's geometry module are absent too: capsules and spheres stand in for their geometries (in the harness), so nothing is claimed about other shapes or about geometries in contact. Complete for four dynamics, three robots, five pairs on the robot and in the world, five ways to obtain the model, two data sharing a model, running and terminal evaluations in two orders, three points (thorough: six), and all pair and joint indices up to two past the last.",
    },
    "C37": {
        "stages": [st("p_gaits", "mb")],
        "technique": DIRECT + "walks asked of the gait generator and histories of them, with every node of every problem evaluated against the walk written out",
        "note": BASE + MINI + "Complete for two orders of the feet, one or two (thorough: three) walks of one generator, three (four) step lengths, two heights, 0-3 and 5 (0-7) knots per step, 0, 1 or 3 support knots, two initial states; single phases for every set of support feet and every swing foot. One robot.",
    },
}

NOT_APPLICABLE = {
    "C30": "CppADCodeGen is absent from this sandbox, so code generation can be neither compiled nor executed",
}
