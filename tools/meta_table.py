TRUST = ("Trusts the analyser's meaning tables for Python and numpy and that "
         "scikit-fem/scipy behave as documented. ")
VN = ("Equalities are decided by value numbering under random "
      "interpretation (sound for alarms; agreement may in principle be a "
      "coincidence with negligible probability). ")
ORD = ("Inequalities are derived in an order domain; what is not derived is "
       "reported undecided, never as an alarm. ")


def fill(prop, S, CD, OC, LM):
    CH, IN, PR, HI, FA = ("configurations", "inputs", "programs",
                          "histories", "fault_sequences")
    prop("C01", "Densities stay within bounds and within the move limit",
         "After every optimisation iteration, and at the start, each design "
         "density lies between the configured minimum and maximum. One "
         "iteration changes a design density by at most the move limit "
         "scheduled for that iteration, and the update never leaves the real "
         "numbers (no negative base of a real power, no logarithm of a "
         "negative density). It holds for both optimisers (OC and LogMOC), "
         "elasticity and heat conduction.",
         [IN, CH, HI], "every sensitivity field (any sign and size), every "
         "density reached so far, every schedule value, both optimisers",
         "The tests run a handful of iterations on one mesh with negative "
         "sensitivities and look at no density; bounds must hold for every "
         "field the solver could deliver.",
         [OC, LM, CD], [("clipped multiplicative update", OC +
                         ":bisection_with_physical_volume"),
                        ("log-space update", LM + ":lagrangian_log_update"),
                        ("initial density", CD + ":initialize_density")],
         "abstract interpretation: gated value flow + order-domain "
         "derivation of the per-element update; iteration graph read over small "
         "random meshes",
         TRUST + ORD, observe=["state density after an iteration",
                               "saved snapshots"])
    prop("C02", "Only design elements change; loaded and fixed ones stay solid",
         "An iteration changes the density of design elements only; all "
         "other elements keep their value. Elements carrying a surface load "
         "(and, when Dirichlet elements are excluded from the design, those "
         "at Dirichlet boundaries) have density 1 at the start and after "
         "every iteration, also where the design set contains them, and fixed "
         "elements (outside the design region) have density 1 as well, in "
         "fresh and in restarted runs.",
         [IN, CH, HI], "every mesh, partition into design / non-design "
         "elements, restart, number of iterations and update rule",
         "Tests never compare densities outside the design set; a wrong "
         "index set is silent.",
         [CD], [("scatter of the design densities", CD + ":_optimize_impl"),
                ("initial masks", CD + ":initialize_density")],
         "abstract interpretation: index-set membership analysis of every "
         "write to the density; iteration graph read over small "
         "random meshes",
         TRUST + VN)
    prop("C03", "OC multiplier search measures and corrects the real volume",
         "In OC the volume error that is measured and recorded is that of "
         "the filtered, projected candidate density over the volumes of the "
         "design elements, minus the scheduled volume fraction. The "
         "multiplier never leaves its configured bracket, rises when the "
         "candidate is too heavy and falls when it is too light, and the "
         "density never grows with the multiplier. The recorded multiplier "
         "and volume error belong to the density that is returned: every "
         "design density is its old value times (max(-gradient, 0) / "
         "multiplier)^eta for the recorded scaled gradient, limited to the "
         "configured scaling rates, the move limit and the bounds. The "
         "search ends on the volume target unless no multiplier of the "
         "bracket brings the volume nearer to it. That gradient is the "
         "computed one over a positive scale; with a percentile scheduled "
         "it is the percentile of its magnitude in the first iteration and "
         "later between that and the scale before.",
         [IN, CH], "every sensitivity, density, filter, schedule value and "
         "bracket",
         "Tests do not look at the search; one wrong comparison, mask or "
         "stale array converges to another volume silently.",
         [OC], [("bisection", OC + ":bisection_with_physical_volume")],
         "abstract interpretation: loop-invariant derivation (interval and "
         "order domain), value numbering, monotonicity analysis; iteration graph read over small "
         "random meshes",
         TRUST + VN + ORD)
    prop("C04", "LogMOC dual update and step direction",
         "In LogMOC the multiplier stays within its configured bounds, the "
         "volume error is that of the current projected density over the "
         "design elements against the scheduled fraction, and multiplier and "
         "constraint coefficient never decrease as that error grows, for "
         "both dual updates: the first iteration of a run takes mu_p times "
         "the error, later ones add that (augmented) or average with "
         "lambda_decay (ema), and the coefficient is the multiplier plus "
         "augmented_lagrangian_mu times the error. The Lagrangian gradient "
         "is the objective gradient plus the coefficient times the volume "
         "gradient (chain rule through projection and filter), up to one "
         "common positive scale, filtered, centred (by volume) and "
         "normalised only as configured. That scale is the scheduled (else "
         "the configured) percentile of the gradient's magnitude in the "
         "first iteration and later between that and the scale before; the "
         "volume gradient is weighted by the configured gain and "
         "percentiles when normalised. A design density never grows with "
         "its gradient: it takes the factor exp(-eta * clipped gradient) "
         "unless move limit or bounds stop it.",
         [IN, CH, HI], "every gradient, density, multiplier history and "
         "schedule value, both dual update modes",
         "Tests only check that a run ends; a sign error still converges to "
         "something.",
         [LM], [("dual update", LM + ":LogMOC_Optimizer.rho_update"),
                ("log step", LM + ":lagrangian_log_update")],
         "abstract interpretation: value numbering, order-domain bounds and "
         "monotonicity analysis; iteration graph read over small "
         "random meshes",
         TRUST + VN + ORD)
    prop("C05", "Gradient handed to the update follows the chain rule",
         "In every iteration the state is solved with the projected, "
         "filtered design density using that iteration's scheduled radius, "
         "sharpness, penalisation and load factor. The gradient given to the "
         "density update is the average over the load cases of the filter's "
         "adjoint applied to (objective derivative with respect to the "
         "physical density) times (projection derivative), evaluated at the "
         "same densities and parameters, optionally smoothed once more, "
         "restricted to the design elements.",
         [IN, CH, HI], "every density, schedule, number of load cases, SIMP "
         "and RAMP, elasticity and heat, both optimisers, all iterations",
         "Finite-difference tests of the chain do not exist; a stale array, "
         "a missing factor or a parameter of the previous iteration gives a "
         "plausible but wrong design.",
         [CD], [("iteration", CD + ":_optimize_impl")],
         "abstract interpretation: value numbering of one generic iteration "
         "against the symbolic chain rule",
         TRUST + VN)
    prop("C06", "Sensitivities are the derivative of the interpolation",
         "For SIMP and RAMP the modulus is full at density 1 and minimal at "
         "density 0, the provided derivative functions are the exact "
         "derivative of the modulus function, and the compliance "
         "sensitivity is minus twice the element energy times the relative "
         "derivative; in-place variants return the same values and inputs "
         "are not modified. The configured model selects the matching pair "
         "and any other name is refused.",
         [IN, CH], "every density, penalisation and modulus pair",
         "Tests sample single values of p and rho.",
         [S + "core/derivatives.py", S + "fea/composer.py", CD],
         [("interpolation", S + "fea/composer.py:simp_interpolation"),
          ("derivatives", S + "core/derivatives.py"),
          ("selection", CD + ":interpolation_funcs")],
         "symbolic differentiation of the abstracted function + value "
         "numbering",
         TRUST + VN)
    prop("C07", "Projection is the normalised tanh step, derivative matches",
         "The Heaviside projection maps 0 to 0 and 1 to 1, equals the "
         "normalised tanh step for every sharpness and threshold, and the "
         "derivative functions return exactly its derivative. In-place "
         "variants write the same values into the given output and then "
         "leave the input density alone.",
         [IN], "every density in [0,1], every sharpness > 0 and threshold",
         "Tests sample points.",
         [S + "core/projection.py"],
         [("projection", S + "core/projection.py")],
         "symbolic differentiation + value numbering",
         TRUST + VN)
    prop("C33", "Recorded metrics are those of the iteration",
         "The histories written in an iteration hold what their names say: "
         "the objective is the mean over the load cases of the objectives "
         "just solved, the density change is the largest absolute change of "
         "a design density in this iteration, the projected density is that "
         "of the design elements, the energy is the mean over the load "
         "cases, u_max the largest absolute value of each load case's "
         "solution, and the load factor the scheduled one. The state between "
         "two calls shows the number, objective, u_max and density change of "
         "the last iteration.",
         [IN, HI, CH], "every iteration, number of load cases and optimiser",
         "Tests do not read the histories' values.",
         [CD], [("recording", CD + ":_optimize_impl")],
         "abstract interpretation: value numbering of recorded values",
         TRUST + VN)
    SCH = S + "tools/scheduler.py"
    prop("C09", "Schedules start, step and end where they promise",
         "For every kind of schedule and 1-based iteration the value is the "
         "documented one: stepped kinds go in num_steps plateaus (curved for "
         "the accelerating and decelerating ones) from the initial to the "
         "target value, sawtooth restarts in every cycle, ToOne kinds go from "
         "1/num_steps to 1, constants stay, disabled ones give None. From the "
         "last iteration on the value is exactly the target, for every number "
         "of steps including more steps than iterations. Unknown, incomplete "
         "or contradictory configurations are refused.",
         [IN, CH, HI], "every schedule kind, init, target, step count, "
         "horizon, curvature and iteration",
         "Tests sample a few points of three kinds; the limits (num_steps 1, "
         "steps not dividing the horizon, past the end) are not sampled.",
         [SCH], [("kinds", SCH)],
         "abstract interpretation: value numbering of the scheduled value "
         "against the documented piecewise formula",
         TRUST + VN)
    prop("C10", "Each parameter gets its own schedule over the whole horizon",
         "In every iteration the penalisation, volume fraction, sharpness, "
         "move limit, threshold, filter radius, percentile and load factor "
         "are the values of the schedules configured for that parameter, at "
         "the current iteration number, over the configured maximum number "
         "of iterations, whatever the order of registration. A plain number "
         "given as threshold stays that number; asking for an unregistered "
         "schedule and a load factor schedule that does not end at one are "
         "refused.",
         [IN, CH, HI], "every configuration, registration order, iteration",
         "Tests run with one set of schedules in which a swap is invisible.",
         [SCH, CD, OC, LM], [("registration", CD + ":parameterize"),
                             ("lookup", SCH + ":Schedulers")],
         "abstract interpretation: value numbering of every parameter used "
         "in a generic iteration, path conditions of refusals",
         TRUST + VN)
    prop("C11", "Stepwise runs equal one uninterrupted run",
         "Running an optimisation as any sequence of optimize_steps calls, "
         "with or without a final optimize, makes the same iterations as one "
         "optimize call: the next call continues at the next iteration with "
         "every value an iteration reads, schedules run over max_iters "
         "either way, and solves, records, snapshots and next densities of "
         "an iteration do not depend on the split. A call makes the requested "
         "number of iterations but never beyond max_iters.",
         [HI, IN], "every split into calls, step counts, max_iters, both "
         "optimisers, with and without convergence checking",
         "Tests split one run once and do not compare values.",
         [CD, OC, LM], [("entry points", CD + ":optimize_steps"),
                        ("iteration loop", CD + ":_optimize_impl")],
         "abstract interpretation of two consecutive calls: loop-carried "
         "state, value numbering of handed-over values and of one generic "
         "iteration",
         TRUST + VN)
    prop("C12", "Restart resumes from the stored iteration",
         "A restart from iteration k reads the file the snapshot of iteration "
         "k was written to, starts at iteration k+1, runs to max_iters and "
         "begins with the stored design densities; without a given iteration "
         "the snapshot with the largest number is taken. Earlier histories "
         "are imported before the first record and nothing is deleted. A "
         "fresh run loads nothing.",
         [HI, IN], "every iteration number up to 999999, directory content "
         "and order, both optimisers",
         "Tests restart once from one file.",
         [CD, S + "core/misc.py"],
         [("restart", CD + ":initialize_density"),
          ("latest", S + "core/misc.py:find_latest_iter_file")],
         "abstract interpretation: writer/reader agreement of path and key "
         "expressions, directory loop over unknown names, event order",
         TRUST + VN)
    prop("C15", "A run ends on both criteria or max_iters, and only once",
         "Iterations are numbered from 1 without gaps and end at max_iters. "
         "They end earlier only when convergence checking is on and both the "
         "density change and the finite residual of this iteration are below "
         "their tolerances, and then they do end. Final results are written "
         "when a run converged or reached max_iters and not before, and a "
         "later call does nothing.",
         [HI, IN], "every max_iters, tolerance, residual and density "
         "history, full and stepwise runs",
         "Tests run two iterations without convergence.",
         [CD], [("iteration loop", CD + ":_optimize_impl"),
                ("finish", CD + ":_finalize")],
         "abstract interpretation: path conditions of every loop exit and of "
         "every event after it, compared over all configurations",
         TRUST + VN)
    prop("C34", "Snapshots are written when due and hold that iteration",
         "A density snapshot and a mesh file are written in the first "
         "iteration, every max_iters//record_times iterations (at least "
         "every one), on convergence and in the last iteration of a call, "
         "and in no other. The snapshot holds the updated design densities "
         "of that iteration and the mesh file the projected density and "
         "mean energy its state was solved with. The final files hold the "
         "final density.",
         [HI, IN], "every max_iters, record_times, step count, convergence "
         "history and iteration",
         "Tests look for a single file of a two-iteration run.",
         [CD], [("recording", CD + ":_optimize_impl")],
         "abstract interpretation: path condition of the write events and "
         "value numbering of their content",
         TRUST + VN)
    prop("C31", "A run writes and deletes only inside its output directory",
         "Every file or directory written between constructing an optimiser "
         "and the end of a run lies in the configured dst_path. The only "
         "thing deleted is dst_path/mesh_rho of an earlier run, by a fresh "
         "run and before it writes anything there; a restarted run deletes "
         "nothing.",
         [IN, CH, HI], "every dst_path, task, optimiser, restart setting and "
         "number of iterations",
         "Tests check single files that should exist; a file written or "
         "deleted elsewhere is not looked for.",
         [CD, S + "tools/history.py", SCH, S + "mesh/visualization.py"],
         [("output directory", CD + ":__init__"),
          ("final files", CD + ":_finalize")],
         "abstract interpretation: effect analysis of every reachable "
         "file-system call with its path expression evaluated over all "
         "output directories",
         TRUST)
    prop("C13", "An exported configuration is imported unchanged",
         "Exporting a configuration to cfg.json and importing it again gives "
         "a configuration of the same class in which every field, including "
         "schedules, PETSc options and the derived linear solver settings, "
         "equals the exported one. Only JSON-representable values are "
         "written, and both sides use the same file.",
         [IN, CH], "every value of every field, every solver option and "
         "combination of overridden PETSc options, OC and LogMOC",
         "Tests export default configurations only and compare a field or "
         "two.",
         [CD, OC, LM, S + "fea/_petsc_compat.py"],
         [("export", CD + ":DensityMethodConfig.export"),
          ("import", CD + ":DensityMethodConfig.import_from")],
         "abstract interpretation: composition of writer and reader on "
         "symbolic field values, value numbering",
         TRUST + VN)
    prop("C17", "Runs leave the process environment as they found it",
         "After optimize or optimize_steps returns or raises, every "
         "environment variable has the value it had before the call, and "
         "is unset if it was unset. A run changes no other process-wide "
         "state (working directory, random seed, numpy error mode). "
         "SCITOPT_SENSITIVITY_MODE accepts its documented names in any case "
         "and refuses others.",
         [FA, HI], "every value the variable had before, every iteration in "
         "which a solve may raise, both optimisers and entry points",
         "Tests neither set the variable nor let a run fail.",
         [OC, S + "core/derivatives.py"],
         [("environment", OC + ":_scaled_sensitivity_mode"),
          ("mode", S + "core/derivatives.py:_sensitivity_mode")],
         "abstract interpretation: typestate of the process environment at "
         "every normal and exceptional exit",
         TRUST)
    EL, HE = S + "fea/solver_elastic.py", S + "fea/solver_heat.py"
    CO, PT = S + "fea/composer.py", S + "fea/solver_petsc.py"
    prop("C08", "The solver built uses the configured material and solver",
         "The finite element solver an optimiser builds uses the configured "
         "interpolation (SIMP or RAMP), the configured minimum stiffness "
         "ratio and the configured linear solver settings, for the state and "
         "for energies and gradients. An interpolation name that does not "
         "exist is refused.",
         [IN, CH], "OC and LogMOC, elasticity and heat, SIMP and RAMP, every "
         "linear solver setting, every density field",
         "Tests run with defaults (SIMP, spsolve), where a wrong wiring "
         "gives the same numbers.",
         [CD, EL, HE, S + "core/misc.py"],
         [("solver construction", CD + ":__init__"),
          ("interpolation table", CD + ":interpolation_funcs")],
         "abstract interpretation: value flow from the configuration through "
         "the constructors into assembly, energy and gradient terms",
         TRUST + VN)
    prop("C19", "Elastic solves give every load case its own displacement",
         "For each load case the displacement returned solves the assembled "
         "stiffness system of the given density with that case's scaled "
         "load and the Dirichlet dofs held, and the compliance returned for "
         "it is the work of that load. The strain energy returned for a case "
         "is that of its own displacement and density. Single-load, "
         "multi-load and legacy entry points agree.",
         [IN, CH], "one to three load cases, every stiffness, load, density "
         "and Dirichlet set, direct and PETSc paths, legacy wrappers",
         "Tests check that results are finite and shapes match; swapped or "
         "shared load cases give finite results of the right shape.",
         [EL, S + "fea/solver.py"],
         [("state", EL + ":compute_compliance_basis_multi_load"),
          ("multi-load solve", EL + ":solve_multi_load"),
          ("energy", EL + ":strain_energy_skfem_multi")],
         "abstract interpretation: gated value flow over a matrix/column "
         "algebra (assembly, enforcement, linear solve), value numbering",
         TRUST + VN)
    prop("C23", "Heat solves, objectives and adjoints match their definitions",
         "For each load case the temperature solves the assembled conduction "
         "and Robin system with that case's prescribed temperatures. The "
         "objective is the documented one (thermal compliance, averaged "
         "temperature, or heat exchange with optional weight), its adjoint "
         "solves K l = dJ/dT with zero values at prescribed dofs (for "
         "compliance it is -2T), and the elementwise energy pairs a case's "
         "temperature with its own adjoint. The compliance gradient includes "
         "the density-dependent Robin part.",
         [IN, CH], "three objectives, one to three load cases with shared or "
         "separate dofs, zero to two Robin boundaries, every solver, every "
         "weight and field",
         "Tests check that a heat run finishes; no temperature, objective "
         "or adjoint is compared with anything.",
         [HE], [("objectives", HE + ":FEM_SimpLinearHeatConduction."
                 "objectives_multi_load"),
                ("energies", HE + ":energy_multi_load"),
                ("gradient", HE + ":compliance_sensitivity_multi_load")],
         "abstract interpretation: gated value flow over a matrix/column "
         "algebra and weak-form integrands, value numbering",
         TRUST + VN + "For heat exchange the adjoint may use the plain or "
         "the density-dependent coefficient (the code mixes both; see "
         "DESIGN.md). ")
    prop("C32", "Weak forms, energies and stresses use one material law",
         "The stiffness form, the elementwise strain energy and the stress "
         "all use the same isotropic linear-elastic law, with Lame "
         "parameters from the interpolated modulus and Poisson ratio. The "
         "conduction form and the heat energy use the same Fourier law. The "
         "energy of a displacement or temperature equals half the quadratic "
         "form of the assembled matrix, and von Mises stress follows its "
         "definition.",
         [IN], "every displacement gradient, temperature gradient, modulus "
         "and Poisson ratio",
         "Tests compare no energy with the stiffness form; a wrong factor "
         "scales results and passes.",
         [CO, EL, HE],
         [("stiffness form", CO + ":assemble_stiffness_matrix"),
          ("strain energy", EL + ":_strain_energy_density_"),
          ("conduction form", CO + ":assemble_conduction_matrix"),
          ("stress", CO + ":compute_element_stress_tensor")],
         "abstract interpretation: weak-form integrands derived as tensor "
         "polynomials and compared by polynomial identity testing",
         TRUST + VN)
    prop("C27", "Linear solves use the configured solver; failures surface",
         "A system is solved by the solver the configuration names, with its "
         "tolerance and iteration limit; 'auto' picks one of the documented "
         "solvers and an unknown name is refused. If an iterative solve "
         "fails or does not converge, the direct solution is returned when "
         "fallback is allowed (always for 'auto'); otherwise a failure is "
         "raised and non-convergence is announced with a warning.",
         [FA, CH], "every solver name, every convergence flag, every "
         "exception of the solver, fallback on and off, one or more load "
         "cases",
         "Tests use well conditioned systems where every solver converges.",
         [EL, HE], [("dispatch", EL + ":solve_u"),
                    ("selection", EL + ":compute_compliance_basis"),
                    ("heat", HE + ":solve_heat_system_multi")],
         "abstract interpretation: exceptional control flow and typestate of "
         "each solve (converged / not converged / raised) with value "
         "numbering of the outcome",
         TRUST + VN)
    prop("C28", "PETSc options set by the user reach the solver unchanged",
         "An option the user sets (as an object, a dictionary or a "
         "configuration field) has the value he gave after normalisation, "
         "merging and configuration, and options not set have their "
         "documented defaults. A direct PETSc solve always is "
         "preonly+lu and refuses contradicting options. The Krylov solver "
         "is created with exactly these options, tolerance and limit, and "
         "solves every right-hand side.",
         [IN, CH], "every combination of options set and not set, object, "
         "dictionary and configuration input, both PETSc solvers, one to "
         "three right-hand sides",
         "petsc4py is not installed, so no test reaches the code.",
         [PT, S + "fea/_petsc_compat.py", CD],
         [("merge", PT + ":merge_petsc_options"),
          ("selection", PT + ":petsc_options_for_solver"),
          ("solver set-up", PT + ":_create_ksp")],
         "abstract interpretation: value flow of every option field, and "
         "event order of the PETSc set-up calls",
         TRUST + VN)
    SP, HN = S + "filters/spacial.py", S + "filters/helmholtz_filter_nodal.py"
    DN = ("Derived value graphs are read over small random meshes with numpy; "
          "agreement on these meshes is strong evidence, not proof, and a "
          "reading that meets an operation without a meaning is reported "
          "undecided. ")
    AR = ("abstract interpretation: gated value graph of the array program, "
          "read over finite random models (random interpretation)")
    prop("C24", "Element volumes and element/node averages are exact",
         "get_elements_volume gives, element by element, the geometric volume "
         "of tetrahedral and hexahedral (flat-faced) meshes of any size and "
         "numbering, and refuses other meshes. A nodal average of element "
         "values is the mean over the elements at that node, an element "
         "average is the mean over its corners, and the map of nodal "
         "gradients to elements is the transpose of the nodal average.",
         [IN], "every mesh geometry, scale, node numbering and element "
         "field",
         "Tests only use uniform box meshes, where the volumes agree for many "
         "wrong decompositions and all averages of a constant agree.",
         [CO, HE, HN],
         [("volumes", CO + ":get_elements_volume"),
          ("nodal average", HE + ":_element_to_nodal_average"),
          ("transpose", HE + ":_nodal_gradient_to_element_gradient"),
          ("element average", HN + ":node_to_element_density")],
         AR, TRUST + DN)
    prop("C25", "Spatial filter: local weighted mean and its transpose",
         "The spatial filter replaces each design density by a weighted mean "
         "of the design densities within the radius: weights are "
         "non-negative, add up to one, depend on the distance only and do "
         "not grow with it; a constant field is kept and non-design elements "
         "neither influence nor change. The filtered gradient is the "
         "transpose of that map on the design elements and zero elsewhere. "
         "After update_radius both use the new radius, and inputs are not "
         "modified.",
         [IN, HI], "every mesh, radius, design set (with gaps), density and "
         "sensitivity field, radius updates between calls",
         "Tests only run the filter inside a short optimisation on one mesh "
         "and compare nothing.",
         [SP], [("weights", SP + ":build_filter_matrix"),
                ("kernel", SP + ":make_kernel"),
                ("filter", SP + ":SpacialFilter.forward"),
                ("transpose", SP + ":SpacialFilter.gradient")],
         AR, TRUST + DN)
    prop("C26", "Helmholtz filter solves its equation with solid frame",
         "Forward averages element densities to nodes by volume (non-design "
         "elements count as 1), solves u - r^2 div(grad u) = averaged density "
         "with the nodes of non-design elements held at 1, and averages back "
         "to elements, so a constant density is kept. The filtered "
         "gradient is the transpose of that map, or its documented smoothed "
         "stand-in of the same radius. After update_radius both use the new "
         "radius; inputs are not modified; the element type is first order "
         "for the mesh.",
         [IN, HI], "every mesh, element volumes, radius, design set, density "
         "and sensitivity field",
         "The tests run the filter for a few iterations and look at no "
         "value.",
         [HN], [("averaging", HN + ":element_to_node_density_averaging"),
                ("equation", HN + ":solve_helmholtz"),
                ("filter", HN + ":HelmholtzFilterNodal.forward"),
                ("gradient", HN + ":HelmholtzFilterNodal.gradient")],
         AR, TRUST + DN + "The gradient is not the transpose on the current "
         "tree (known finding). ")
    TC, TE, TH = (S + "mesh/task_" + n + ".py"
                  for n in ("common", "elastic", "heat"))
    MU, TP = S + "mesh/utils.py", S + "mesh/toy_problem.py"
    prop("C21", "Task index sets follow from mesh, regions and design set",
         "A task built from nodes or facets, with one region or lists of "
         "regions, derives: constrained degrees of freedom of all regions in "
         "their directions and free ones as the complement; boundary elements "
         "as the elements touching the region's nodes; design elements as the "
         "requested ones without loaded elements (and without Robin elements "
         "unless they are designable); fixed elements as all others. A task "
         "with no design element is refused. Excluding Dirichlet elements "
         "from the design keeps design, fixed and mask consistent.",
         [IN, CH], "every tetrahedral or hexahedral mesh, node or facet "
         "region (overlapping, repeated, unsorted), direction list and design "
         "set",
         "Tests build two box problems with disjoint regions and full design "
         "sets and compare none of the sets.",
         [TC, TE, TH, MU],
         [("index sets", TC + ":FEMDomain.from_nodes"),
          ("facets to nodes", TC + ":FEMDomain.from_facets"),
          ("exclusion", TC + ":FEMDomain.exlude_dirichlet_from_design"),
          ("element lookup", MU + ":get_elements_by_nodes")],
         AR, TRUST + DN)
    prop("C22", "Boundary loads: one per region, total value, right direction",
         "Each surface-force region gives one load case whose total is the "
         "given value, spread evenly over the region's facets, in the given "
         "direction only. Heat flux regions integrate their flux; Robin "
         "regions give the matrix of h u v and the vector of h T_env v over "
         "their own facets. Regions, directions and values pair up in order; "
         "mismatched lengths and unknown directions are refused. n_tasks and "
         "force count the load cases; update_robin_bc keeps the Robin terms.",
         [IN, CH], "every mesh, facet region, number of regions, direction "
         "and value; scalar or list arguments",
         "Tests use one force region and one Robin region, so pairing, "
         "totals and late-bound coefficients are never seen.",
         [TE, TH], [("forces", TE + ":assemble_surface_forces"),
                    ("load cases", TE + ":LinearElasticity.force"),
                    ("flux", TH + ":assemble_surface_neumann"),
                    ("exchange", TH + ":assemble_surface_robin"),
                    ("refresh", TH + ":LinearHeatConduction.update_robin_bc")],
         AR, TRUST + DN)
    prop("C30", "Mesh tags become regions in numeric order",
         "from_mesh_tags takes for each kind (dirichlet, neumann, robin) "
         "the boundary tags kind_<number> ordered by that number, whatever "
         "order and number of digits the mesh file has, or else the plain "
         "tag; similar names are ignored. The design set "
         "is the subdomain tagged design, and the values given by the caller "
         "are handed on unchanged, so that value i belongs to region i.",
         [IN, CH], "every set and order of tag names", "Tests load at most "
         "two single-digit tags; lexicographic order or a greedy pattern only "
         "shows with ten or more regions or stray names.",
         [TE, TH], [("elastic tags", TE +
                     ":LinearElasticity.from_mesh_tags"),
                    ("heat tags", TH +
                     ":LinearHeatConduction.from_mesh_tags")],
         "abstract interpretation with constant folding of the tag names "
         "(region selection as a function of the set of names)",
         TRUST + "Decided for the listed families of tag names. ")
    prop("C35", "Orientation fixes keep every cell and make it right-handed",
         "The orientation functions return a connectivity with the same "
         "nodes per element in which every tetrahedron and hexahedron is "
         "right-handed and still the same cell (a valid hexahedron, not a "
         "tangled one); right-handed elements and the caller's arrays are "
         "left alone. The box generators return right-handed meshes spanning "
         "the box with cells no larger than asked.",
         [IN], "every mesh with any mix of mirrored cells and any box",
         "The generators never produce a mirrored cell, so tests do not "
         "reach the correction.",
         [MU, TP], [("tetrahedra", MU + ":fix_tetrahedron_orientation"),
                    ("hexahedra", MU + ":fix_hexahedron_orientation"),
                    ("boxes", TP + ":create_box_hex")],
         AR, TRUST + DN)
    prop("C29", "Element lookup and neighbours are exact for the mesh asked",
         "get_elements_by_nodes returns the sorted, unique numbers of exactly "
         "the elements of the given mesh that contain one of the nodes, for "
         "an array or a list of arrays, repeated or no nodes, whatever meshes "
         "were looked up before - also when a mesh takes the id of one that "
         "was collected. Two elements are adjacent exactly when they share a "
         "node; get_adjacent_elements (and the fast version) return the "
         "other elements adjacent to the given ones, sorted.",
         [IN, HI], "every mesh, node list and sequence of lookups",
         "The tests look up nodes of one mesh; a stale cache entry needs a "
         "second mesh at the same address.",
         [MU], [("lookup", MU + ":get_elements_by_nodes"),
                ("adjacency", MU + ":build_element_adjacency_matrix"),
                ("neighbours", MU + ":get_adjacent_elements"),
                ("fast versions", MU + ":build_element_adjacency_matrix_fast"
                 )], AR, TRUST + DN)
    prop("C43", "Command-line options reach the configuration unchanged",
         "Every option of the optimizers' command lines becomes the "
         "configuration field of that name with the value given, zero and "
         "False included; filter radius, move limit, volume fraction, "
         "penalisation, sharpness and percentile become the schedule from "
         "their _init to their own value in their own _step steps (sharpness "
         "with beta_curvature, move limit as a sawtooth, no percentile: no "
         "schedule). Options are read as the type of their field, booleans "
         "as the words true/t/false/f in any case and nothing else, "
         "none/null/nan as no value. The defaults alone are a valid "
         "configuration.",
         [IN], "every option value and combination",
         "No test touches the command line; an option that is dropped or "
         "crossed with another leaves a default in force silently.",
         ["scikit-topt/sktopt/core/misc.py", OC, LM],
         [("options", "scikit-topt/sktopt/core/misc.py:args2OC_Config_dict"),
          ("declared options",
           "scikit-topt/sktopt/core/misc.py:add_common_arguments")],
         "abstract interpretation of the conversion over symbolic options, "
         "value numbering per field; the declared options are read from the "
         "syntax tree",
         TRUST + VN)
    prop("C44", "Images show the field and iteration they are named after",
         "With export_img, each recorded iteration renders the density and "
         "the energy once each, from that iteration's mesh file after it is "
         "written, into a file of its own whose names sort by iteration and "
         "match the animation's pattern; without it nothing is rendered. The "
         "colour range covers the field: 0 to 1 for the density. The renderer "
         "draws the named field of the named file into the named image; "
         "without a display or the library it reports failure and the run "
         "goes on. The animation shows its images in order, every "
         "skip_frame+1-th.",
         [HI], "every run, field and recorded iteration",
         "Tests cannot render without a display; a swapped field name still "
         "gives a plausible picture.",
         [S + "core/visualization.py", CD],
         [("rendered", CD + ":_optimize_impl"),
          ("file names", CD + ":image_path"),
          ("renderer",
           S + "core/visualization.py:write_mesh_with_info_as_image"),
          ("animation", S + "core/visualization.py:images2gif")],
         "abstract interpretation of whole runs with the renderer recorded: "
         "event order, value numbering of the calls' conditions, text values "
         "of the paths over iteration numbers",
         TRUST + VN)
    prop("C45", "Mesh files are read as the cells they hold",
         "basis_from_file and load_mesh_auto read a file with tetrahedra as a "
         "tetrahedral mesh and one with hexahedra as a hexahedral mesh, "
         "whatever other cell blocks it has and in whatever order, from the "
         "path given, and refuse every other file; the basis is the linear "
         "vector element of that cell with the integration order asked for "
         "and tetrahedra are oriented. load_stiffness_matrix is isotropic "
         "elasticity with the given Young's modulus and Poisson's ratio. "
         "get_points_in_range selects the closed box. The bundled toy "
         "problems can be built: support and load select facets of their box "
         "and the load is not on the support alone.",
         [IN], "every combination of cell blocks, material and box",
         "No test reads a mesh file, and toy problems are built for one size.",
         [S + "mesh/loader.py", TP, MU],
         [("basis", S + "mesh/loader.py:basis_from_file"),
          ("mesh", TP + ":load_mesh_auto"),
          ("box", MU + ":get_points_in_range")],
         "abstract interpretation with the reader replaced by a file of "
         "symbolic cell blocks; shape of the resulting basis term; "
         "point-wise reading of the box predicate on sides, edges, corners",
         TRUST + DN)
    prop("C46", "The residual that ends a run is the Lagrangian gradient's",
         "The optimality residual recorded in an iteration, kept by the "
         "optimizer and compared with its tolerance is the largest magnitude "
         "of the Lagrangian gradient over the interior design elements "
         "(density away from both bounds by more than rounding), and zero "
         "when there is none, never a value left over from an earlier "
         "iteration. In OC that gradient is the computed one plus the "
         "multiplier, in the gradient's own units, times the element's share "
         "of the design volume, at the density just found; in LogMOC it is "
         "the recorded scaled Lagrangian gradient at the density the "
         "iteration started from. With convergence checking on, residual and "
         "volume error shown between two calls are those of the last "
         "iteration.",
         [IN, CH, HI], "every sensitivity field, density, volume and "
         "multiplier, both optimisers, elasticity and heat conduction",
         "Tests only check that a run with convergence checking finishes; "
         "no test reads the residual.",
         [OC, LM, CD], [("residual", OC + ":rho_update"),
                        ("residual (LogMOC)", LM + ":rho_update"),
                        ("volume shares", CD + ":__init__"),
                        ("state", CD + ":_optimize_impl")],
         "abstract interpretation: the value graph of an iteration read over "
         "random small meshes, against the definition; value numbering of "
         "the state between calls",
         TRUST + VN)
    prop("C40", "A run makes progress towards an optimum",
         "The objective of a feasible run decreases and the optimality "
         "residual tends to zero.", [HI], "every problem and configuration",
         "A test sees one problem.", [CD], [("loop", CD + ":_optimize_impl")],
         "none", "",
         na="Depends on the numerical values of the finite element solution "
         "over a whole run; nothing in the source bounds them statically. "
         "The parts fixed by the source (gradient, update, stopping) are "
         "C03-C05, C15.")
    prop("C41", "Computed fields are accurate to the tolerance",
         "Displacements, temperatures and filtered fields satisfy their "
         "equations to the solver tolerance.", [IN], "every mesh and density",
         "Tests solve a few small systems.", [S + "fea/solver.py"],
         [("solves", S + "fea/solver.py")], "none", "",
         na="Depends on conditioning and rounding inside SciPy, PETSc and "
         "PyAMG. Which system is solved by which solver with which tolerance, "
         "and what happens on failure, is C19, C23, C26, C27, C28.")
    prop("C42", "No overflow or loss of digits at extreme parameters",
         "Projection, interpolation and updates stay finite for extreme "
         "steepness, penalties and multipliers.", [IN],
         "every admissible parameter", "Tests use default parameters.",
         [S + "core/projection.py"],
         [("projection", S + "core/projection.py")], "none", "",
         na="Floating point rounding is outside the real-number reading of "
         "the value graph; bounds on exponents would need run-time ranges of "
         "the sensitivities.")
    prop("C16", "Scaling the problem is one change of units, undone once",
         "With scaling on, an elastic task is put into units of the longest "
         "side of its bounding box (one factor for all coordinates) and every "
         "load case is multiplied by the same positive factor, once; "
         "connectivity, element, quadrature and named regions stay. When the "
         "loop ends - converged, out of iterations, one call or many - and "
         "before the final files are written, coordinates and loads are back "
         "in the caller's units, once; later calls change nothing. Without "
         "scaling nothing is touched.",
         [IN, CH, HI], "every mesh, number of load cases and way to end a run",
         "The tests never switch scaling on, so scale and unscale are not "
         "run.",
         [CD, TC], [("factors", CD + ":DensityMethod.scale"),
                    ("task", TC + ":FEMDomain.scale"),
                    ("undo", CD + ":_finalize")],
         "event order and heap contents over abstract runs; value numbering "
         "of scaled against original quantities",
         TRUST + VN + ORD + "Elastic tasks; heat tasks cannot be scaled "
         "(recorded in DESIGN.md). ")
    prop("C20", "Computations leave the caller's arrays and lists as given",
         "Evaluating materials, derivatives, projections, schedules, filters, "
         "element lookups and orientation fixes, building a task, solving, "
         "taking energies and sensitivities, or running an optimisation does "
         "not change an array or list passed in, except documented outputs "
         "(out=, the solution array). Loads, boundary data, node and design "
         "sets and densities hold afterwards what they held before, so the "
         "same call gives the same answer twice.",
         [IN, HI], "every argument and every number of repeated calls",
         "The tests do not compare arguments before and after, and aliasing "
         "shows only for particular shapes or on a second call.",
         [EL, HE, TC, MU, CO, S + "filters/spacial.py"],
         [("solves", EL + ":FEM_SimpLinearElasticity.objectives_multi_load"),
          ("heat", HE + ":solve_multi_load"),
          ("task", TC + ":FEMDomain.from_nodes"),
          ("filters", S + "filters/spacial.py:SpacialFilter.forward")],
         "alias-tracking abstract interpretation (contents of the caller's "
         "heap cells before and after)",
         TRUST + VN + DN)
    prop("C36", "Exported designs hold the elements, order and fields they should",
         "The submesh holds exactly the elements that are not designed or "
         "whose density is above the threshold (at or below it they are left "
         "out), on the mesh's own points without unused ones, written to the "
         "path given. A field export writes points, cells in the file "
         "format's corner order and every field under its name, for tetra- "
         "and hexahedra. The condition file marks nodes as 1 loaded, 2 fixed, "
         "3 Robin (one of those that apply) or 0 and elements as 3 designed "
         "or 2 not.",
         [IN, CH], "every mesh, density, threshold, design set and set of "
         "regions",
         "Tests write files and do not read them back.",
         [S + "mesh/visualization.py", S + "core/visualization.py", TC],
         [("submesh", S + "mesh/visualization.py:export_submesh"),
          ("fields", S + "core/visualization.py:export_mesh_with_info"),
          ("conditions",
           TC + ":FEMDomain.export_analysis_condition_on_mesh")],
         "value numbering of what reaches the mesh writer against a reference "
         "over random meshes, densities and regions",
         TRUST + VN + DN)
    prop("C18", "Section timings add up, nested and failing sections included",
         "Every section - nested, repeated, failing, left early, or a wrapped "
         "function - records its duration once, under its name or, when "
         "hierarchical, its path of names. Statistics give count, total, mean "
         "and maximum; self time is the total less that of direct children. "
         "Summaries come in the order asked, unknown keys are refused, reset "
         "forgets one section or all including running averages. Bar, stacked "
         "and pie charts show each section once with its figure and name; "
         "running averages are means of what was plotted. Wrapped functions "
         "get their arguments and give their results.",
         [HI, PR], "every nesting of sections and every history of calls",
         "Tests time one or two sections in a fixed order.",
         [S + "tools/timer.py"],
         [("sections", S + "tools/timer.py:SectionTimer.section"),
          ("statistics", S + "tools/timer.py:SectionTimer.stats"),
          ("self time", S + "tools/timer.py:SectionTimer._self_time_stats"),
          ("charts", S + "tools/timer.py:SectionTimer.plot_bar")],
         "abstract interpretation of generated client programs with exact "
         "exception paths; value numbering of the statistics and charts",
         TRUST + VN + DN)
    prop("C14", "Recorded series keep every value, also through files and plots",
         "Every value fed to a series is kept in order: a number as it is, an "
         "array as its [min, mean, max(, std)]. Array, latest and object "
         "views give these values. Exporting and importing (also into a new "
         "collection) gives the same series with name, plot type, and the "
         "constants, names and log flag registered for it. Two sets of series "
         "compare equal exactly when names, plot types and values agree. "
         "Progress pages draw each series with values once with the right "
         "lines, band and scale, every page under its own name. An unknown or "
         "empty series is refused by latest.",
         [IN, HI], "every history of registrations, records, exports and "
         "imports",
         "Tests compare one collection before and after one export, with "
         "several entries in each series.",
         [S + "tools/history.py"],
         [("records", S + "tools/history.py:HistorySeries.add"),
          ("files", S + "tools/history.py:HistoryCollection.import_histories"),
          ("pages", S + "tools/history.py:HistoryCollection.export_progress"),
          ("comparison",
           S + "tools/history.py:compare_histories_data_and_plot_type")],
         "abstract interpretation of generated client programs with stand-in "
         "files and figures; value numbering of what is kept and drawn",
         TRUST + VN + DN)
