# Writes properties.jsonl (kept as a script so that the long texts stay reviewable).
import json, os
F = ["mpopt/mpopt.py"]
P = []
def p(id, title, statement, over, qtext, why, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=F,
            state=[dict(name=a, meaning=b, where="mpopt/mpopt.py:"+c) for a,b,c in state],
            mechanism=[dict(name=a, where="mpopt/mpopt.py:"+b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

NLP = ["the problem, bounds and start values handed to casadi.nlpsol (f, x, g, p, lbx, ubx, lbg, ubg)"]
ANYOCP = "every problem (number of phases, states, controls, parameters, scaling factors, bounds) and every mesh (segments, per-segment polynomial degrees, LGR/LGL/CGL, normalised interval)"

p("C01", "Every unknown is optimised once, inside the user's bounds",
  "The vector of unknowns handed to the NLP solver consists, for each phase in order, of all states (state by state over the nodes), all controls (control by control over the nodes), the start time, the end time and the parameters (followed by the segment widths when those are optimised), each exactly once. Each unknown carries exactly the lower and upper bound the user gave for that quantity in that phase, multiplied by its scaling factor. Only in the first phase is the state at the first node additionally pinned to the user's given initial state; no other node or phase is pinned.",
  ["inputs","configurations"], ANYOCP,
  "The tests only compare vector lengths, and only for problems without parameters, with unit scaling and one segment; they never look at which bound sits at which unknown.",
  [("mpopt.get_nlp_variables","get_nlp_variables"),("mpopt_adaptive.get_nlp_variables","mpopt_adaptive.get_nlp_variables"),("mpopt.create_nlp","create_nlp")],
  [("Z, Zmin, Zmax","decision vector and its bounds","create_nlp")], NLP)
p("C02", "Feasible means the polynomial obeys the dynamics at every node",
  "For every phase, state and node, the transcribed problem contains exactly one equality constraint, and its residual equals the derivative of the segment's interpolating polynomial through the scaled state values minus the (scaled) user dynamics times the segment's physical length per unit of normalised time, the dynamics being evaluated at that node's unscaled states, controls, parameters and physical time. A node shared by two segments is collocated with the polynomial of the segment that ends there. Hence any trajectory that is polynomial on each segment and satisfies the differential equation makes all these residuals zero, and a trajectory that violates it at a node does not.",
  ["inputs","configurations"], ANYOCP + ", every trajectory and every vector of segment widths",
  "The tests solve a handful of one- and two-phase problems with equal widths and uniform degrees and check array shapes; a wrong row, width, time, scale or phase index for other meshes is invisible to them.",
  [("discretisation","get_discretized_dynamics_constraints_and_cost_matrices"),("defects","get_nlp_constraints_for_dynamics"),("composite D","Collocation.get_composite_differentiation_matrix")],
  [("f","h*scale*f(x,u,t,a) per node","get_discretized_dynamics_constraints_and_cost_matrices")], NLP)
p("C03", "Path constraints hold at every node of their phase",
  "For every phase whose path-constraint function returns values, each returned component is imposed at every node of that phase as 'at most zero', evaluated with that node's unscaled states, controls, physical time and the phase's unscaled parameters. A phase whose function returns nothing contributes no path constraint, and no phase's function is applied to another phase.",
  ["inputs","configurations"], ANYOCP + " and every path-constraint function",
  "Path constraints occur in two test problems and are never evaluated; only the solver's success is observed.",
  [("path rows","get_nlp_constraints_for_path_contraints"),("detection","OCP.has_path_constraints"),("argument adaptation","OCP.get_path_constraints")], (), NLP)
p("C04", "Terminal constraints and terminal cost use the phase's own end points",
  "For every phase, each component returned by the terminal-constraint function is imposed as 'equals zero' and the terminal cost is added once to the objective, both evaluated with the unscaled state at the last node and end time, the unscaled state at the first node and start time, and the unscaled parameters of that same phase. A phase whose terminal-constraint function returns nothing contributes none.",
  ["inputs","configurations"], ANYOCP + " and every terminal-constraint and terminal-cost function",
  "Test problems use terminal functions of the final state only, with unit scaling; swapped arguments, a wrong phase or a missing unscaling leave every test green.",
  [("terminal rows and Mayer term","get_nlp_constraints_for_terminal_contraints"),("objective","discretize_phase")], (), NLP)
p("C05", "The objective integrates the running cost over every segment",
  "The objective equals the sum over phases of the terminal cost and of the sum over all segments of the interpolatory quadrature of the running cost on that segment's nodes times the segment's physical length per unit of normalised time. So a running cost that is polynomial in time of degree up to the segment's degree along the trajectory is integrated exactly, for any segment widths, degrees and scheme; in particular a constant running cost c contributes c*(tf-t0).",
  ["inputs","configurations"], ANYOCP + ", every running cost, every trajectory and every vector of segment widths",
  "No test compares a cost with an independent value, and multi-segment tests use only schemes for which a missing end-point weight is zero.",
  [("running cost per node","get_discretized_dynamics_constraints_and_cost_matrices"),("composite weights","Collocation.get_composite_quadrature_weights"),("objective","discretize_phase")], (), NLP)
p("C06", "Linked phases join in state, control and time",
  "For every pair of linked phases the transcribed problem requires, component by component, that the first-node state of the later phase minus the last-node state of the earlier one lies between the user's jump bounds for that link (scaled), that the controls are equal across the link, and that the later phase starts at the time the earlier one ends. A single-phase problem has no such constraint and unlinked phases are not coupled.",
  ["inputs","configurations"], "all numbers of phases, link lists, jump bounds, scalings and meshes",
  "The only test of the phase links checks that three lists have the same length; jump bounds are never non-zero in the tests.",
  [("event constraints","get_event_constraints"),("assembly","create_nlp")], (), NLP)
p("C07", "Control-rate, mid-point and rate-continuity options mean what they say",
  "When enabled for a phase: the rate option bounds the time derivative of every control's polynomial, in user units, at every node by the user's rate limits; the mid-point option bounds every control at the middle of every pair of neighbouring nodes by the control bounds (when any is finite); the rate-continuity option makes the time derivative of every control equal on both sides of every interior segment boundary, for any segment widths. When an option is disabled for a phase that phase gets none of its constraints. (The optimiser that treats widths as unknowns always bounds the mid-points and does not offer rate-continuity.)",
  ["inputs","configurations"], ANYOCP + " and every combination of the per-phase options",
  "One test switches the options on and checks that solve() returns; the constraints themselves are never evaluated.",
  [("rate","get_nlp_constraints_for_control_input_slope"),("mid-points","get_nlp_constrains_for_control_input_at_mid_colloc_points"),("rate continuity","get_nlp_constrains_for_control_slope_continuity_across_segments")], (), NLP)
p("C08", "Scaling factors never change the problem being solved",
  "For any positive scaling factors of states, controls, parameters and time, a trajectory given in user units gets the same objective value, violates or satisfies the same constraints (each constraint residual and its bounds agree with the unscaled problem up to the positive factor of its own row; only the tolerance of the mid-point residual limits is stated in scaled units), has the same bounds on its unknowns and the same initial guess, and is returned by post-processing with the same values, as with all factors equal to one.",
  ["inputs","configurations"], ANYOCP + " and every choice of positive scaling factors",
  "Scaling other than one appears in two test problems, whose results are not compared with their unscaled versions.",
  [("scaling in transcription","get_discretized_dynamics_constraints_and_cost_matrices"),("scaled bounds","get_nlp_variables"),("unscaling","post_process.get_trajectories")], (), NLP + ["post.get_data()"])
p("C09", "Collocation nodes are the advertised ones",
  "For LGR, LGL and CGL and every degree d >= 1 there are d+1 strictly increasing nodes whose first and last are (to rounding) the ends of the normalised interval and whose interior nodes are, respectively, the zeros of the Jacobi polynomials P(1,0) and P(1,1) of degree d-1 and the Chebyshev extrema, mapped affinely to that interval. This holds for the interval [-1,1] and for any other configured interval such as [0,1].",
  ["inputs","configurations"], "all degrees, the three schemes, any normalised interval",
  "The tests look at the first and last node for degrees 1 and 3.",
  [("node functions","CollocationRoots"),("initialisation","Collocation.init_polynomials")], (), ["Collocation(...).roots"])
p("C10", "Derivative, quadrature and interpolation operators are exact on polynomials",
  "On the nodes of any scheme and degree d (or any user-supplied distinct nodes) the operators obtained from the collocation object are exact for all polynomials of degree at most d: the first- and second-derivative matrices at the nodes or at arbitrary points, the interpolation matrix at arbitrary points (identity at the nodes, rows summing to one), and the quadrature weights between arbitrary limits (for LGR and LGL on the full interval also up to degree 2d-2 and 2d-1). The symbolic and the numerical construction agree.",
  ["inputs","configurations"], "all degrees up to the accuracy limits of double precision, all schemes, evaluation points and integration limits",
  "One test compares the two constructions for degree 3 LGR; degree 1 matrices are compared without an absolute value; nothing else is checked.",
  [("basis","Collocation.get_lagrange_polynomials"),("derivative","Collocation.get_diff_matrix"),("quadrature","Collocation.get_quadrature_weights"),("interpolation","Collocation.get_interpolation_matrix")], (), ["Collocation(...) methods"])
p("C11", "Composite operators act segment by segment on any mesh",
  "For every list of per-segment degrees (uniform or not) the composite differentiation, interpolation, derivative-at-points and quadrature operators applied to values on the shared-node grid give, for each segment, exactly the result of that segment's own polynomial: an arbitrary continuous piecewise polynomial is differentiated, interpolated at any points requested per segment (including none in some segments) and integrated correctly. At a node shared by two segments the differentiation row is that of the segment ending there, and no row of one segment involves values of another.",
  ["inputs","configurations"], "all lists of degrees, all per-segment lists of evaluation points",
  "The composite operators are only exercised through whole solves with uniform degrees, where shape is checked but not value.",
  [("composite D","Collocation.get_composite_differentiation_matrix"),("composite W","Collocation.get_composite_quadrature_weights"),("composite I","Collocation.get_composite_interpolation_matrix"),("composite D at points","Collocation.get_composite_interpolation_Dmatrix_at")], (), ["Collocation(...) methods"])
p("C12", "The default initial guess is the straight line the user described",
  "Without a supplied start, the guess handed to the solver gives, in every phase, node k of N the states and controls on the straight line from the user's initial to final guess at fraction k/(N-1), the guessed start and end time, the guessed parameters (and equal segment widths when these are unknowns), each multiplied by its scaling factor and placed at the position of that unknown. It is finite whenever the user's guesses are finite.",
  ["inputs","configurations"], ANYOCP + " and every initial guess",
  "The only test checks the length of the guess, with zero guesses.",
  [("guess","init_solution_per_phase"),("guess, width optimiser","mpopt_adaptive.init_solution_per_phase"),("assembly","initialize_solution")], (), NLP)
p("C13", "Solver calls use the given start, widths, bounds and options",
  "Every call of the NLP solver receives the start values and multipliers of the supplied solution (under either accepted key spelling, nothing else from it), or the default guess where no start values are supplied, together with the bounds of the transcribed problem. The fixed-mesh optimiser receives equal widths unless the caller supplies widths, in which case exactly those; exactly the requested solver plug-in is created, with the documented defaults overridden by the caller's options; the solver's answer is returned unchanged.",
  ["inputs","configurations","histories"], "all supplied solutions (any subset of keys), width lists, solver names and option dictionaries",
  "Tests never pass a start, multipliers, widths or options.",
  [("solve","solve"),("warm start","get_solver_warm_start_input_parameters"),("solver creation","create_solver")],
  [("_nlp_sw_params","segment widths in force","solve")], ["arguments of casadi.nlpsol and of the solver object"])
p("C14", "Retrieved trajectories are the solution in user units",
  "For any solution vector, the retrieved states, controls and parameters of the requested phases, in the requested order, are the solution's entries divided by their scaling factors (or undivided if scaled output was requested), one row per node, together with the physical times of those nodes. Parameters keep one value per parameter and phase whatever their number.",
  ["inputs","configurations"], ANYOCP + ", every solution vector and every list of phases",
  "Tests check that three arrays have equal length; none has parameters or non-default phase lists.",
  [("trajectory functions","init_trajectories"),("retrieval","post_process.get_trajectories"),("phases","post_process.get_original_data")], (), ["post.get_data()","post.get_original_data()","post.get_trajectories()"])
p("C15", "Interpolated trajectories are the collocation polynomials",
  "Interpolated retrieval evaluates, for each requested phase in order, each segment's own collocation polynomial of states and controls at the requested (or the default uniform) points of each segment and reports the matching physical times and the parameters. It reproduces the node values at the nodes, starts at the phase's first and ends at its last node, and has as many rows as points.",
  ["inputs","configurations"], ANYOCP + ", every solution vector, list of phases and list of evaluation points",
  "Tests check only that the lengths of three arrays agree.",
  [("interpolation","post_process.get_interpolated_data"),("times","post_process.get_interpolated_time_grid"),("grid","post_process.get_interpolation_taus"),("refinement","post_process.get_non_uniform_interpolation_grid")], (), ["post.get_data(interpolate=True)","post.get_interpolated_data()"])
p("C16", "Residual grids cover the phase: right segment, no end points, no losses",
  "A list of normalised phase positions is distributed over the segments so that every position in (start, end] appears in exactly one segment, the one containing it, at the proportional place of that segment, in order. The built-in residual grids contain no collocation node of the phase's ends: the uniform one consists of all interior points of a uniform division of the phase, no fewer than the number of grid points of the optimiser (15, or n_grid_points, per phase) nor than the mesh has intervals between nodes, the mid-point one of the middles of neighbouring nodes of every segment, the spectral one of interior nodes of a higher degree, no fewer than that number, in every segment.",
  ["inputs","configurations"], "all meshes, width vectors summing to one, lists of positions, normalised intervals",
  "Tests use one or two segments and compare the extreme values.",
  [("distribution","compute_interpolation_taus_corresponding_to_original_grid"),("grids","get_residual_grid_taus")], (), ["get_residual_grid_taus()","compute_interpolation_taus_corresponding_to_original_grid()"])
p("C17", "Reported dynamics residuals are the true defects between nodes",
  "For any solution vector, mesh, widths and residual points (given, or the phase's own grid type), the dynamics residual reported for each point is the derivative of the segment's state polynomial minus segment length times the scaled user dynamics at the interpolated unscaled state, control, parameters and at the physical time of that point, reported segment by segment with those times; the relative form divides, per state, by the largest magnitude of that scaled dynamics term over the phase (and stays absolute where that is zero). It is zero at all points if the trajectory solves the differential equation exactly, and segments without points report none.",
  ["inputs","configurations"], ANYOCP + ", every solution vector and grid",
  "Tests bound the residual of converged solutions loosely (0.1 to 4).",
  [("residual","get_dynamics_residuals_single_phase"),("phases","get_dynamics_residuals"),("interpolation","interpolate_single_phase")], (), ["get_dynamics_residuals()","get_dynamics_residuals_single_phase()"])
p("C18", "Reported state residuals compare with the integrated dynamics",
  "For any solution vector and residual points, the state residual at each point is the interpolated scaled state minus (the segment's first-node state plus the integral from the segment start of the dynamics interpolated through that segment's residual points), and the relative form divides by the largest integrated state magnitude of the phase per state (and stays absolute where that is zero). It is zero when the trajectory solves the differential equation and the right-hand side along it is polynomial of degree below the number of points.",
  ["inputs","configurations"], ANYOCP + ", every solution vector and grid",
  "Two tests compare with a converged solution on a single segment.",
  [("integration","compute_states_from_solution_dynamics"),("residuals","get_states_residuals")], (), ["get_states_residuals()","compute_states_from_solution_dynamics()"])
p("C19", "Refined meshes are always valid meshes",
  "Whatever the residuals, control slopes and current widths, every refinement rule returns for each phase as many widths as segments, all positive and summing to one. Merge/split replaces each run of neighbouring in-tolerance segments by one and divides each run of out-of-tolerance segments into equal parts, leaving run boundaries in place; equal-area places boundaries at equal shares of the trapezoidal integral of the residuals, taken at equally spaced points; in iterative refinement that rule moves the widths 40 % of the way to them; control-slope places them, at most as many as there are boundaries, at the interior nodes where the controls change steepest (2-norm of their derivative with respect to normalised time), steepest first, and shares the remaining boundaries out so that all widths stay positive, holding every width between the optimiser's limits for its phase before scaling them to sum to one; a phase within tolerance keeps its widths.",
  ["inputs"], "all residual vectors (not all zero), current widths, positive tolerances, control trajectories and numbers of segments",
  "The refinement rules run only on the residuals of two problems and their output is not examined.",
  [("equal area","get_roots_wrt_equal_area"),("merge split","merge_split_segments_based_on_residuals"),("slope","compute_segment_widths_at_times"),("times","compute_time_at_max_values")], (), ["the refinement functions","widths handed to the solver in each iteration"])
p("C20", "Iterative width refinement terminates and reports the mesh it solved",
  "Iterative refinement calls the solver at most the given number of times, starting from equal widths (or from the widths refined from the supplied solution) and each later time from the previous solution with the widths refined from it. It stops after the first solution whose largest residual is within the smallest phase tolerance, when no width would change by more than five percent, when the error stagnates, or at the limit (stagnation: from the fifth answer on, the error lies within 5 % of the mean of the last four errors), and returns the last computed solution; the widths it leaves for post-processing are those that solution was computed with.",
  ["histories","inputs"], "all sequences of solver answers (residual histories), iteration limits, tolerances and methods",
  "Tests run at most ten iterations on two problems and look only at the keys of the result.",
  [("loop","mpopt_h_adaptive.solve"),("width update","mpopt_h_adaptive.get_segment_width_parameters")],
  [("_nlp_sw_params","widths in force","mpopt_h_adaptive.solve"),("iter_count, iter_info","history","mpopt_h_adaptive.solve")], ["solver calls","returned solution","widths used by process_results"])
p("C21", "Width optimisation keeps a valid mesh and honest residual limits",
  "The optimiser that treats segment widths as unknowns constrains them, per phase, to the configured bounds and to sum to one; constrains states and controls at the middles of neighbouring nodes to their bounds; and, unless switched off, limits the width-weighted dynamics defect at those middles (at their own physical times) to the phase's tolerance. The widths used for post-processing are those contained in the returned solution.",
  ["inputs","configurations"], ANYOCP + ", width bounds, tolerances and solver answers",
  "Tests solve two problems and look at keys and lengths.",
  [("width constraints","mpopt_adaptive.get_nlp_constrains_for_segment_widths"),("solve","mpopt_adaptive.solve")], (), NLP)
p("C22", "Optimisers are isolated from callers and from each other, and reusable",
  "An optimiser works on its own copy of the problem: later changes to the user's problem object do not affect it, and it never changes the problem, solutions, option dictionaries or lists passed to it. Calls on one optimiser never influence another one, and repeating a call sequence gives the same solver inputs. The transcription is built once and reused until a rebuild is requested, which makes changed settings effective; results already retrieved stay as they were, and process-wide state is not altered.",
  ["histories"], "all interleavings of constructing, modifying, solving and post-processing with several optimisers of any kind",
  "Each test uses fresh objects and one call; no history with two optimisers or a mutated argument is tested.",
  [("copy","mpopt.__init__"),("reuse","solve"),("default arguments","mpopt_h_adaptive.solve")],
  [("_nlpsolver_initialized","solver built","solve")], ["solver inputs over call histories","arguments after the call"])
p("C23", "Problem validation accepts exactly the consistent problems",
  "Validation succeeds for every problem whose per-phase functions, scale vectors, guesses, bounds and jump bounds have the sizes implied by the numbers of phases, states, controls and parameters, whose dynamics return one value per state, whose costs return a value, whose constraint functions return nothing or at least one value, and whose lower bounds do not exceed upper bounds. It raises an assertion error for a problem violating any one of these.",
  ["inputs","configurations"], "all problem sizes and all single and combined inconsistencies",
  "Tests only validate well-formed problems.",
  [("validate","OCP.validate"),("defaults","OCP.__init__")], (), ["OCP.validate()"])
p("C24", "Degree-and-width refinement terminates with a consistent mesh",
  "The degree-and-width refinement performs at most two solves per allowed iteration, keeps every degree within the configured limits, keeps widths positive and summing to one per phase, and stops early exactly when every phase's relative state residual is within the requested accuracy. Degrees rise only in segments out of tolerance, only out-of-tolerance segments are split, after the second solve of an iteration and exactly where, in a phase out of tolerance there, the second derivative of a state exceeds the configured threshold times its largest value before, and the returned solution belongs to the mesh left in the optimiser, so it can be post-processed.",
  ["histories","inputs"], "all sequences of solver answers, iteration limits, degree limits and numbers of phases",
  "No test runs it.",
  [("loop","mpopt_ph_adaptive.solve_ph"),("maxima","mpopt_ph_adaptive.get_abs_max_residual")],
  [("poly_orders, n_segments","current mesh","mpopt_ph_adaptive.solve_ph")], ["solver calls","mesh after solve_ph"])
p("C25", "A successful solve returns a feasible, optimal, retrievable trajectory",
  "When the NLP solver reports success, the retrieved trajectory of every optimiser kind starts at the given initial state, respects all bounds, path, terminal and link constraints within solver tolerance, satisfies the dynamics at the nodes, and has the reported cost; no known feasible trajectory of a convex problem is better. Problems with a known polynomial solution that satisfies them on every mesh are solved, and the retrieved trajectory equals that solution at and between the nodes, whatever mesh, scheme, widths, scaling, interval and optimiser kind, cold and warm.",
  ["inputs","configurations"], "all problems of the sampled families with all meshes, schemes, scalings and optimiser kinds",
  "Tests check two closed-form solutions on one mesh each.",
  [("solve","solve"),("post-processing","process_results"),("convenience","solve")], (), ["solution and post.get_data() of real solves"])
p("C26", "Node times map the mesh to physical time",
  "In every phase node k of segment s has physical time t0 + (tf-t0)*(sum of the widths before s + width of s times the node's relative position in the segment), in user units; so times start at t0, end at tf when the widths sum to one, increase strictly, and put segment boundaries at the cumulative widths. The user's functions, the retrieved trajectories and residual reports all use these times.",
  ["inputs","configurations"], "all meshes, widths, start/end times, time scalings and normalised intervals",
  "Times are compared in one autonomous problem with a single segment.",
  [("time grid","get_discretized_dynamics_constraints_and_cost_matrices"),("interpolated times","get_interpolated_time_grid")], (), ["times passed to user functions","post.get_data()"])
p("C27", "Plots draw exactly the retrieved data",
  "Plotting a solution draws, for the requested phases and components, curves whose abscissae and ordinates are the retrieved (and, when asked, interpolated) times and values, each component once per requested curve in its own axis with the matching label, for single- and multi-phase problems and any subset of components; residual plots, also those drawn while refining, likewise draw the reported residuals over their times; each plotting function returns the figure and axes it drew on; drawing does not change the solution.",
  ["inputs","configurations"], "all numbers of phases and components, phase and component selections, options",
  "Tests call three plot functions and ignore what is drawn.",
  [("phases","post_process.plot_phases"),("states","post_process.plot_x"),("controls","post_process.plot_u"),("curve","post_process.plot_curve")], (), ["data of the matplotlib lines"])
p("C28", "Reported curvature is the second derivative of the trajectory",
  "For any solution vector, mesh, widths and points (given, or a built-in grid), the reported second derivatives of states and controls are, segment by segment and point by point, the second derivatives of that segment's collocation polynomials of the scaled states and controls with respect to the normalised time, reported with the physical times of the points (the relative form of one phase divides by the largest magnitude in the segment); a trajectory that is linear on a segment has zero curvature there, and segments without points report none.",
  ["inputs","configurations"], ANYOCP + ", every solution vector and grid",
  "No test looks at the values.",
  [("second derivative","get_state_second_derivative_single_phase"),("phases","get_state_second_derivative"),("operators","Collocation.get_interpolation_Dmatrices_at")], (), ["get_state_second_derivative()","get_state_second_derivative_single_phase()"])
p("C29", "Everything left unset means its documented default",
  "A problem or optimiser of which only some settings are made is solved as one in which every other setting is written out: a problem has one state, one control, one phase and no parameters unless said otherwise; nothing is scaled; dynamics and costs not given are zero and constraints not given are absent; states, controls, parameters and times are unbounded, except that times are not negative and the first phase starts at time zero; guesses are zero, over times zero to one; each phase continues the one before without jump; control rates are not limited (by -15 and 15 once asked for), controls keep their bounds at segment mid-points too, control slopes may jump. The optimiser has one segment of degree 9 on LGR nodes; the width-optimising one keeps widths between 1e-4 and 1 and limits mid-point residuals to 1e-3. Setting one thing, in one phase or link, takes effect as given and changes nothing else, in this problem or another.",
  ["inputs","configurations","composition"], "every subset of settings made (per phase and link), every problem size, every optimiser class and solve()",
  "Tests set everything they rely on in one problem, or compare a default with itself; they never look at the program that results.",
  [("problem defaults","OCP.__init__"),("optimiser defaults","mpopt.__init__"),("widths and residual limits","mpopt_adaptive.__init__"),("solve","solve")], (), ["OCP()","mpopt()","mpopt_adaptive()","solve()"])
p("C30", "The program can be asked for piece by piece, as a whole, or built by hand",
  "The unknowns with their bounds of a phase, the rows with their bounds and the cost of a phase, the link rows with their bounds and the start values, asked for one by one in any order and any number of times, are together the nonlinear program of the problem; so is the whole program, however often it is asked for. This holds for a new optimiser, after its variables were created, after the whole program was asked for, after a solve, and after a reset to another mesh. A solver created by hand, with its plug-in and options, is the one the next solve uses.",
  ["inputs","histories"], "all problems, meshes, optimiser classes, and orders and repetitions of the questions",
  "The tests ask once, in one order, of one problem, and look at shapes.",
  [("unknowns","get_nlp_variables"),("rows of a phase","discretize_phase"),("links","get_event_constraints"),("whole","create_nlp"),("start values","initialize_solution"),("solver","create_solver")], (),
  ["get_nlp_variables()","discretize_phase()","get_event_constraints()","initialize_solution()","create_nlp()","create_solver()"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
