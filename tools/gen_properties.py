import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
O="metku/optimization/"
NOOPT="The reliable tests exercise only steel sections and members; no test of the optimisation package is in the stable suite, and a test samples single calls, not every order of calls."
p("C01","Design variables honour locks and write every target",
 "An unlocked design variable given a value stores it and writes it to every target object and property (multiplied by its scaling, through its target function, or as the value selected by its index), while a locked variable changes neither its own value nor any target until it is unlocked. Locking with a value sets that value first, and a variable group passes each given value to the right member variable.",
 ["histories","inputs"],"every sequence of substitute/lock/unlock/scale/group-substitute calls on continuous, integer, index, discrete, binary, cross-section variables and groups, with any target wiring",
 NOOPT,[O+"variables.py",O+"variable_group.py"],
 [("value substitution and locking",O+"variables.py: Variable.substitute/lock/unlock/scale, IndexVariable.substitute, CrossSectionVariable.substitute"),("groups",O+"variable_group.py: VariableGroup")],
 [("value, locked","stored value and lock flag",O+"variables.py: Variable"),("target fields","attributes of target objects","objects in Variable.target")],
 ["variable value and lock flag","attributes of target objects"])
p("C02","Objective and constraints are evaluated at exactly the requested design",
 "For any set of locked variables, evaluating the objective or a constraint of a problem at a point of the free variables equals evaluating it at the full design in which free variables have the requested values and locked ones keep theirs, and afterwards the problem's variables hold that design (values outside a variable's bounds are moved to the nearest bound). Maximisation objectives are reported negated, and the views of free variables, fixed values and constraint lists always reflect what has been added and locked.",
 ["histories","inputs","configurations"],"every order of adding, locking, unlocking, substituting and evaluating, every lock pattern, linear and nonlinear functions, min and max objectives",
 NOOPT,[O+"structopt.py",O+"constraints.py",O+"objective.py"],
 [("constraint evaluation",O+"constraints.py: Constraint.__call__, LinearConstraint, NonLinearConstraint"),("objective evaluation",O+"objective.py: ObjectiveFunction.__call__"),("vector substitution and registries",O+"structopt.py: OptimizationProblem.add/vars/fixed_vals/substitute_variables/eval_*")],
 [("X","current design vector",O+"structopt.py: OptimizationProblem.X")])
p("C03","Structural results used in an evaluation belong to the evaluated design",
 "Whenever an objective or constraint that needs structural analysis is evaluated, the structural results it reads come from an analysis made for exactly the design being evaluated and for the load cases it asks for. Evaluating several constraints one after another at one design analyses each requested load case only once, and the reported number of analyses equals the number performed.",
 ["histories"],"every sequence of evaluations, direct substitutions, locks, linearisations and explicit analyses, with several load cases",
 NOOPT+" Staleness only appears when two calls in a particular order leave an analysis of another design marked as done.",
 [O+"structopt.py",O+"constraints.py",O+"objective.py"],
 [("analysis bookkeeping",O+"structopt.py: fea, fea_done, substitute_variables, linearize"),("demand",O+"constraints.py: Constraint.__call__; objective.py: ObjectiveFunction.__call__")],
 [("fea_done","which load cases are analysed for the current design",O+"structopt.py")])
p("C04","Feasibility verdicts respect constraint sense, tolerance and bounds",
 "A design is declared feasible exactly when every '<' constraint value is at most the tolerance, every '>' value at least minus the tolerance and every '=' value within the tolerance of zero. A constraint is marked not potentially active exactly when its last evaluated value is on the safe side by more than its activity tolerance.",
 ["inputs","configurations"],"every combination of constraint senses and values on, just inside and just outside the tolerances, for direct verdicts and those made during solving",
 NOOPT,[O+"structopt.py",O+"constraints.py",O+"solvers/optsolver.py"],
 [("verdict",O+"structopt.py: OptimizationProblem.feasible; solvers/optsolver.py: OptSolver.is_feasible"),("activity",O+"constraints.py: __call__")])
p("C05","A solver run reports the best feasible design visited and an exact history",
 "After an iterative solver run that met a feasible design, the reported best objective and design are those of the best feasible design among those its iterations visited, the best never worsens during the run, and the design recorded for every iteration is the one visited then and never leaves the variable bounds. The run stops when the solver's step reports it is done, at the iteration limit, or at the first feasible iterate whose relative change of design or objective is within the convergence tolerance, and not before.",
 ["histories","configurations"],"every sequence of step directions, feasible and infeasible visits, starting points inside and outside the bounds, iteration limits and convergence criteria",
 NOOPT,[O+"solvers/optsolver.py"],[("template loop",O+"solvers/optsolver.py: OptSolver.solve, step, is_feasible, update, stopping_criterion")],
 [("best_f,best_x","incumbent",O+"solvers/optsolver.py"),("problem.states/fvals/gvals","logged run",O+"structopt.py")])
p("C06","Branch and bound finds the optimal discrete design and restores the problem",
 "For a problem with discrete and integer variables, all free at the start, whose continuous relaxations are solved exactly, branch and bound returns a design that satisfies all constraints and allowed values and whose objective is the best among all such designs, or reports that none exists. Nodes are explored within bounds that partition their parent's region without losing an allowed design, and the variables' bounds and lock states are as before when the run ends.",
 ["inputs","configurations","histories"],"every small mixed discrete/integer problem, constraint senses, branching strategies and selection rules",
 NOOPT,[O+"solvers/bnb.py"],[("search",O+"solvers/bnb.py: BnB.solve, select_node, branch, prune, lower_bound, upper_bound, feasibility_tightening")],
 [("open nodes","sub-problems still to explore",O+"solvers/bnb.py: BnB"),("best_f,best_x","incumbent",O+"solvers/bnb.py")])
p("C07","Discrete variables accept, round and branch only on allowed values",
 "A value is accepted as allowed exactly when it lies within the bounds and within tolerance of an allowed value, and the violation of a value is its distance to the nearest allowed value (zero within tolerance). The neighbours used for rounding are the nearest allowed values, the branching values are the closest allowed values strictly below and above, and random designs always consist of allowed values within the bounds.",
 ["inputs","configurations"],"every allowed-value list (sorted or not), every query value including ties, list ends and tolerance edges, and mixed variable types",
 NOOPT,[O+"variables.py",O+"structopt.py"],[("variable queries",O+"variables.py: is_allowed_value, discrete_violation, smaller/larger_discrete_value"),("neighbourhood, violation, random designs",O+"structopt.py: discrete_neighborhood, discrete_violation, random_values, type_of_vars")])
p("C08","Penalty and multiplier functions agree with the constraints they replace",
 "At every design that satisfies all constraints and bounds the exact and quadratic penalty terms are zero, and at any other design they are positive and grow with each violation, for every constraint sense. Multipliers stay non-negative for inequalities and bounds and are updated from the constraint, lower-bound or upper-bound value they belong to.",
 ["inputs","histories"],"every combination of constraint senses, violation signs and magnitudes, bounds, penalty factors and update sequences",
 NOOPT,[O+"structopt.py"],[("penalties",O+"structopt.py: exact_penalty_fun, exterior_penalty_fun"),("augmented Lagrangian",O+"structopt.py: augmented_lagrangian, update_lag_mult")],
 [("mult, lb_mult, ub_mult","Lagrange multipliers",O+"constraints.py, variables.py")])
p("C09","Population solvers keep truthful personal and global bests",
 "In every iteration of a particle swarm run the recorded global best is the best feasible design met so far (or the least violating one when none is feasible), it never worsens, and each particle's personal best is a design that particle visited and is no worse than any it visited. Particles stay within the variable bounds and, for discrete variables, on allowed values of their own variable. The best recorded by a genetic run is the design with the lowest penalised objective met so far.",
 ["histories","inputs"],"every sequence of swarm moves and evaluations, feasible and infeasible mixtures, per-variable value lists",
 NOOPT,[O+"solvers/pso.py",O+"solvers/ga.py"],[("swarm bookkeeping",O+"solvers/pso.py: eval_particle, update_best, move"),("elite",O+"solvers/ga.py: GA.solve")],
 [("best_f,best_x, particle bests","bests recorded",O+"solvers/pso.py")])
p("C10","Frame analysis depends only on the current model and satisfies statics",
 "The displacements, reactions and member forces reported for a load case after any sequence of model edits and analyses equal those of a freshly built identical model analysed once for that load case. They satisfy the supports and hinges, equilibrium with the applied loads at every node and for every element, and superposition of load cases.",
 ["histories","inputs","programs"],"every order of changing sections, materials, node positions, hinges, supports and loads, and of analysing load cases, on plane frames and trusses of beam and bar elements, beams with semi-rigid joints and springs",
 "No stable test covers the finite element package; results left over from an earlier analysis or cached from an earlier stiffness only show for particular edit-analyse orders.",
 ["metku/framefem/framefem.py","metku/framefem/elements/ebbeam.py","metku/framefem/elements/rod.py","metku/framefem/elements/eb_semi_rigid_beam.py","metku/framefem/elements/springs.py","metku/framefem/element.py"],
 [("analysis","metku/framefem/framefem.py: FrameFEM.linear_statics, nodal_dofs, global_stiffness_matrix, global_load_vector"),("element results","metku/framefem/elements: internal_forces, local_stiffness_matrix, equivalent_nodal_loads")],
 [("results per load id","displacements, reactions, element forces","FEMNode.u, Element.fint")])
p("C11","Building a frame model keeps members, nodes, supports and loads consistent",
 "After any sequence of adding nodes, members, supports and loads to a frame model, identifiers are unique and the load-case and combination lists contain each identifier once with every load added to it. Generating the analysis model gives every frame node one analysis node shared by all members connected to it, every member its ordered chain of elements between its end nodes with its hinges, every support on its node and every load exactly once; repeating it or adding self-weight again does not duplicate anything, and moving a node afterwards moves its members.",
 ["histories","programs"],"every order of adding members, supports, loads, self-weight and generating the analysis model",
 "No stable test builds a frame model; duplicates and lost registrations depend on the order of construction calls.",
 ["metku/raami/raami.py","metku/raami/frame_node.py","metku/raami/frame_member.py","metku/raami/frame_loads.py"],
 [("assembly","metku/raami/raami.py: Raami.add, generate_fem, add_self_weight"),("nodes","metku/raami/frame_node.py"),("member mesh","metku/raami/frame_member.py: generate_elements")])
p("C12","Load combinations of a frame carry the right factor for every load",
 "Combining load cases gives, for each load of each included case, one combined load of the same kind, place and direction whose magnitude is the original times the design factor of its case (permanent, leading variable or accompanying variable by category, and limit state). Combining again, or combining several combinations from the same cases, neither duplicates loads nor alters the original ones.",
 ["configurations","histories"],"every set and order of load cases with permanent, imposed, wind and snow loads, both limit states, all load kinds, repeated combination",
 "No stable test creates a load combination.",["metku/raami/frame_loads.py","metku/raami/raami.py"],
 [("combination","metku/raami/frame_loads.py: LoadCombination.combine_loads, LoadCase.combine, Load.factored")])
p("C13","Eurocode load combiner returns the governing combination for every limit state",
 "For any set of permanent and variable loads, the combiner's ultimate, serviceability and accidental results are the EN 1990 combinations (each variable load leading in turn, the others reduced by their own class factors) and the reported factors reproduce the reported values. Loads given to the combiner are not modified, and combinations per load identifier and direction sum exactly the loads with that identifier and direction.",
 ["inputs","configurations"],"every multiset of load kinds, classes and magnitudes, consequence class and limit state",
 "No stable test covers the combiner.",["metku/eurocodes/en1991/en1991.py" ],[("combiners","en1991: Combiner classes")])
p("C14","Assigning a section or material to a member reaches its whole analysis model",
 "After any sequence of assigning cross-sections or materials to members and groups, before or after the analysis model is generated, every member's analysis elements use that member's current section and material, and members not assigned keep theirs (a material is given to the section object, so members that took one section together share it). Weights follow the current section, and self-weight loads added or renewed are those of the current section.",
 ["histories","configurations"],"every order of section and material assignments, group assignments and analysis-model generation",
 "No stable test assigns sections on a frame model.",["metku/raami/frame_member.py","metku/raami/raami.py"],
 [("propagation","metku/raami/frame_member.py: cross_section setter, generate_elements, MemberGroup")])
p("C15","Member forces and utilisation are those of the load case and worst location",
 "After an analysis, the force and displacement lists of each member for a load case are those of its elements and nodes in order from the first end to the last for that load case, results of other load cases stay, and reported extremes over load cases are the greatest and least values over all locations. A member's design utilisation for a load case is the largest over the cross-section checks of all its locations and its stability checks (buckling and beam-column when some location is in compression, lateral-torsional when it is susceptible), and it passes its resistance check exactly when no designed load case exceeds the allowable utilisation.",
 ["inputs","histories"],"every number of elements, load case sequence and force distribution, hinged or rigid ends",
 "No stable test runs a frame analysis through to member checks.",["metku/raami/frame_member.py","metku/structures/steel/steel_member.py"],
 [("force extraction","metku/raami/frame_member.py: calc_nodal_forces, extreme values"),("utilisation","metku/structures/steel/steel_member.py: design, check_sections, check_buckling")])
p("C16","Automatic member sizing selects the first adequate profile",
 "Sizing a member or group from a catalogue leaves it with the first (lightest-ranked) profile whose utilisation does not exceed the limit for all load cases, or the last profile when none is adequate, and every member of a group ends with the same profile. Sizing never leaves a member with a profile other than the one it reports, and repeated sizing with unchanged forces changes nothing.",
 ["configurations","inputs","histories"],"every utilisation pattern over catalogue entries, members and load cases, and every starting profile",
 "No stable test runs sizing.",["metku/raami/frame_member.py","metku/raami/raami.py"],
 [("sizing","metku/raami/frame_member.py: optimum_design; MemberGroup.optimum_design; raami.py: Raami.optimize_members")])
p("C17","Section properties always belong to the current dimensions and material",
 "After any sequence of changing dimensions (of sections that have changeable ones: rectangular, square and custom circular hollow, custom I and welded I), material and design forces, and of querying resistances or effective properties, every reported section property, buckling curve, resistance and class of a steel section equals that of a new section created with the same dimensions, material and forces. Queries never change a later answer.",
 ["histories"],"every sequence of dimension changes, material changes, force settings and property queries on I, welded I, rectangular and circular hollow sections",
 "The stable tests create a section and read it; none changes it afterwards or checks that a query leaves later answers alone.",
 ["metku/sections/steel/steel_section.py","metku/sections/steel/RHS.py","metku/sections/steel/ISection.py","metku/sections/steel/wi.py","metku/sections/steel/CHS.py"],
 [("recomputation","metku/sections/steel: property setters, update_properties, cross_section_properties"),("effective section","metku/sections/steel/wi.py")])
p("C18","Cross-section class and resistance selection follow EN 1993-1-1",
 "For every slenderness, yield strength and position of the neutral axes the class of a part is that of EN 1993-1-1 Table 5.2. For every combination of axial force (tension or compression) and major-axis bending moment of either sign, the class of an I, welded I, rectangular or circular hollow section is the worst class among its compressed parts under the stresses they carry (1 when nothing is compressed), and bending, shear, axial and interaction resistances use the properties belonging to that class (gross elastic ones in class 4, effective section modulus of welded I-sections in bending). Equivalent moment factors and interaction factors follow Tables B.3 and B.1 for every moment diagram, slenderness and class; the buckling curves of rolled and welded I-sections and of cold-formed tubes those of Tables 6.2, 6.4 and 6.5 for every depth, width, flange thickness and grade.",
 ["inputs"],"every class boundary side, sign combination of forces, moment diagram case and section family",
 "The stable tests pin a few sections in one loading; the case analysis over class boundaries, signs and diagram cases is not enumerated.",
 ["metku/eurocodes/en1993/en1993_1_1.py","metku/sections/steel/steel_section.py","metku/sections/steel/RHS.py","metku/sections/steel/ISection.py","metku/sections/steel/wi.py"],
 [("classification and resistance","metku/eurocodes/en1993/en1993_1_1.py; sections: section_class, flange_class, web_class_comp_bend, bending_resistance, section_resistance"),("moment and interaction factors","metku/eurocodes/en1993/en1993_1_1.py: equivalent_moment_factor, kyy, kzz, kzy, kyz")])
p("C19","Linearising a problem is faithful and leaves the problem unchanged",
 "Linearising a problem at a design gives the values and partial derivatives of the objective and of every requested constraint with respect to the free variables at that design, in their order. Afterwards all variables, locks, targets and the current design are as they were at that design.",
 ["inputs","configurations","histories"],"every lock pattern, mix of linear and nonlinear constraints, potential-only selection and designs on the bounds",
 NOOPT,[O+"structopt.py"],[("linearisation",O+"structopt.py: linearize, num_grad")])
p("C20","CONLIN and MMA approximations agree with the problem and leave it unchanged",
 "The convex-linear (CONLIN) and moving-asymptote (MMA) approximations of a problem, formed at any design, equal its objective and constraints at that design, have the values the methods define everywhere else for the free variables at that moment, keep linear constraints exact and every constraint's type, and have bounds inside those of the problem and strictly between the asymptotes. Forming, evaluating or moving the approximation leaves the problem with its own variables, locks and constraints at the design it was formed at; using the problem later leaves the approximation unchanged.",
 ["inputs","configurations","histories"],"every lock pattern, mix of linear, nonlinear and analysis-dependent constraints, objective sense, asymptotes and move limits, and order of forming, locking, substituting and evaluating either problem",
 NOOPT,[O+"structopt.py",O+"opt_functions.py",O+"constraints.py"],[("approximations",O+"structopt.py: conlin, mma; "+O+"solvers/mma.py: MMAProblem"),("functions",O+"opt_functions.py: conlin_fun, mma_fun, MMAFunction, Linearize, NumGrad")])
R="metku/raami/"
p("C21","Solvers reach the optimum of linear and convex problems within the constraints",
 "For a problem with linear objective and constraints the linear (and mixed-integer linear) solver returns an optimal design in terms of the free variables, for either objective sense and any constraint senses, and reports a problem without a solution as infeasible. Every step of sequential linear programming (continuous or with discrete values) goes to an optimum of the linearised problem within the move limits, bounds and allowed values, with the least possible violation when the linearised constraints cannot all be met. The gradient-based and derivative-free solvers of smooth convex problems (SQP, COBYLA, trust region, MMA, augmented Lagrangian) end at a design inside the bounds and constraints, with locked variables kept, whose objective is the optimum and is what they report.",
 ["inputs","configurations","histories"],"every lock pattern, objective and constraint sense, starting design, move limit rule (relative, range, halving), set of allowed values of small linear, quadratic and mixed problems, and every iteration of a run",
 "No solver is run by the stable suite; a test compares one run with one known optimum, not every step with the subproblem it has to solve.",[O+"solvers/lp.py",O+"solvers/milp.py",O+"solvers/slp.py",O+"solvers/mislp.py",O+"solvers/slsqp.py",O+"solvers/trust_region.py",O+"solvers/mma.py",O+"solvers/alm.py",O+"solvers/optsolver.py"],
 [("linear solvers",O+"solvers/lp.py: LP.solve; "+O+"solvers/milp.py: MILP.solve"),("sequential linear programming",O+"solvers/slp.py, mislp.py: take_action, step"),("nonlinear solvers",O+"solvers/slsqp.py, trust_region.py, mma.py, alm.py")])
p("C22","Fire: material properties, heating and section factors follow EN 1993-1-2",
 "Strength and stiffness reduction factors of carbon steel, stainless steel 1.4301 and bolts vary linearly between the tabulated temperatures of their own table, and elongation, conductivity, specific heat, ultimate strength and stress at any strain follow from them as EN 1993-1-2 (3.2-3.4, Annexes A and C) prescribes. The temperature of an unprotected steel member under any gas temperature history is the step-by-step sum of the net heat flux of EN 1991-1-2 times section factor and shadow effect. Section factors and shadow effect follow from the true perimeter and area of the profile, and the strain parameter epsilon from the grade (EN 1993-1-1, EN 1993-1-4).",
 ["inputs","histories"],"every temperature from 20 to 1200 degrees, every strain, every history of gas temperatures and exposure times, every kind of profile",
 "Nothing of the fire design rules is covered by the stable tests; tables and branches of the rules change at temperatures no sample hits.",["metku/eurocodes/en1993/en1993_1_2.py","metku/materials/steel_data.py","metku/sections/steel/steel_section.py","metku/sections/steel/ISection.py","metku/sections/steel/RHS.py","metku/sections/steel/CHS.py"],
 [("factors and curves","metku/eurocodes/en1993/en1993_1_2.py: reduce_property, stress, stress_stainless, fuT"),("heating","metku/eurocodes/en1993/en1993_1_2.py: steel_temp, stainless_steel_temp, hnet"),("section factors","metku/sections/steel/steel_section.py: section_factor, shadow_effect")])
p("C23","Generated roof trusses are complete, correctly shaped, loaded and jointed",
 "A sloped roof truss generated for given heights, half spans, bracing pattern (K, N, KT), number of panels and end type has its ridge at the given point, chords on straight lines between the given heights, ordered nodes, each chord node connected by the braces of the pattern and no others, and is statically determinate and triangulated. Every node with braces gets exactly one joint of the kind its number of braces asks for, knowing its chords and braces, angles, eccentricity and gap; a load given by zones acts on every part of the chord exactly once with the value of its zone; weight and cost are the sums over members and joints. The analysis models (without eccentricity, with eccentricity, with gap elements) hold every member once, carry exactly the applied loads to the supports and can be cleared and regenerated.",
 ["configurations","histories"],"every bracing pattern, panel number, first diagonal direction, end type and shape, and every order of building, jointing, supporting, loading, moving joints, generating, analysing and clearing",
 "The truss module has no test in the stable suite; a test would sample single layouts while errors sit in one combination of pattern, panels and asymmetry.",[R+"raami_plane_truss.py",R+"raami.py",R+"frame_loads.py"],
 [("topology",R+"raami_plane_truss.py: SlopedTruss.generate_topology"),("joints",R+"raami_plane_truss.py: generate_joints, TubularKGapJoint"),("loads and models",R+"raami_plane_truss.py: generate_uniform_load, generate_piecewise_uniform_load, generate_fem")])
p("C24","Resistances of hollow section joints follow EN 1993-1-8",
 "For every joint of rectangular and square hollow sections (K gap, Y, T and X joints, with or without a chord face plate) the resistance to each brace, to chord face failure, chord side wall buckling, chord shear, brace failure and punching shear is that of EN 1993-1-8 chapter 7 for the members, angles, gap and chord stress at hand, whatever was set before and in which order. Utilization is force over resistance for every failure mode that applies, for tension and compression braces on either side and for every load case, and designing a joint changes nothing. Joints of a truss take the forces of their own members in the load case being designed.",
 ["inputs","histories"],"every combination of width ratio, chord slenderness, angle, gap, stress sign and validity limit around the borders of the rules, and every order of changing members, gap, plate and forces",
 "No stable test covers a joint: the failure modes, their ranges of application and signs of forces are a large case analysis of which a test samples a few points.",["metku/eurocodes/en1993/en1993_1_8/rhs_joints.py",R+"raami_plane_truss.py"],
 [("joint rules","metku/eurocodes/en1993/en1993_1_8/rhs_joints.py: RHSKGapJoint, RHSYJoint, RHSXJoint"),("truss joints",R+"raami_plane_truss.py: TubularYJoint, TubularKGapJoint: design")])
p("C25","Section properties are those of the shape, whatever changed before",
 "Area, second moments of area, elastic and plastic section moduli, neutral axes, circumference, shear area, torsion and warping constants, shear centre and Wagner's factor of a welded I-section are those of its three plates after any sequence of changes of its dimensions, and turning the section upside down mirrors them. For every profile of the catalogue (IPE, HE, RHS, SHS, CHS) they are those of the rounded shape with the listed dimensions.",
 ["inputs","histories"],"every mono- or doubly symmetric plated shape of the bounds, every order of changing plates, and every catalogue entry",
 "Tests compare a few profiles with tabulated numbers; formulas of mono-symmetric shapes have branches (position of the plastic neutral axis, unequal flanges) those profiles never enter.",["metku/sections/steel/wi.py","metku/sections/steel/ISection.py","metku/sections/steel/RHS.py","metku/sections/steel/CHS.py","metku/sections/steel/steel_section.py"],
 [("plated shapes","metku/sections/steel/wi.py: area, second_moment, section_modulus, plastic_section_modulus, wagners_factor, warping_constant, paint_area"),("catalogue","metku/sections/steel/ISection.py, RHS.py, CHS.py: cross_section_properties")])
p("C26","Plate buckling of welded I-sections follows EN 1993-1-5",
 "Buckling factors, reduction factors and effective widths of internal and outstand parts are those of EN 1993-1-5 Tables 4.1 and 4.2 for every stress ratio and slenderness. Effective area, effective second moment of area and effective section modulus of a welded I-section, its web's shear resistance with the contribution of the flanges (section 5, never above the plastic resistance) and its resistance to a concentrated force (section 6) follow from its present dimensions, grade, forces and stiffener spacing.",
 ["inputs","histories"],"every mono- or doubly symmetric plated shape, grade, stiffener spacing, utilisation of the flanges, load type and bearing length of the bounds, and every order of changing them",
 "The rules switch branch at slenderness borders and between plates; a test checks a few cross-sections with published numbers, none of them in the stable suite reaching slender webs.",["metku/eurocodes/en1993/en1993_1_5.py","metku/sections/steel/wi.py"],
 [("tables","metku/eurocodes/en1993/en1993_1_5.py: buckling_factor_internal, buckling_factor_outstand, reduction_factor_internal, reduction_factor_outstand, effective_width_internal, effective_width_outstand"),("section","metku/sections/steel/wi.py: effective_flange, effective_web, Aeff, I_eff_y, W_eff_y, shear_buckling_resistance, transverse_load_resistance")])
p("C27","Bolts and bolted end-plate joints follow EN 1993-1-8",
 "Resistances of a bolt (shear through thread or shank, tension, bearing, punching, combined) are those of EN 1993-1-8 Table 3.4 for every size, class, plate and edge distance, and a bolt whose size is changed equals a new bolt of that size. For a bolted end-plate joint, after any sequence of changes of the plate, the bolts, the positions of the rows, the transformation parameter, the column's stress and its stiffeners: resistances of rows and row groups are those of the T-stubs (Tables 6.2, 6.4-6.6) and components of the present dimensions; forces of the rows, taken from the top, exceed neither the row's, its groups' nor the compression side's resistance; bending resistance is the sum of row forces times lever arms; lever arm and initial stiffness follow 6.3.",
 ["inputs","histories"],"every joint, plate, bolt, row position, stress and stiffener of the bounds, and every order of changing them",
 "A joint caches lengths and resistances in rows, groups and components; a test evaluates one freshly built joint.",["metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py","metku/structures/steel/end_plate_joint.py"],
 [("bolts","metku/eurocodes/en1993/en1993_1_8/en1993_1_8.py: Bolt, bolt_shear_resistance, bolt_bearing_resistance, bolt_tension_resistance"),("joint","metku/structures/steel/end_plate_joint.py: EndPlateJoint.MjRd, VjRd, Sj_ini, add_stiffener, BoltRow, RowGroup"),("components","metku/eurocodes/en1993/en1993_1_8/component_method.py and en1993_1_8.py: TStub, column and beam components")])
p("C28","Open thin-walled sections and cold-formed rules follow EN 1993-1-3",
 "For every polyline of walls, OpenProf gives area, centroid, second moments, principal axes, sectorial properties, shear centre, warping and torsion constants of EN 1993-1-3 Annex C for the present nodes and wall thicknesses; dividing a wall changes none of them. C and Z sections give the gross section of their dimensions, and under compression or bending the effective section of EN 1993-1-5 Tables 4.1/4.2 with notional widths, effective edge stiffeners and their distortional buckling (5.5.3), whatever load was evaluated before. Bearing and validity of screws (Table 8.2), average yield strength (3.1), distortional reduction (5.12), edge stiffener buckling factor (5.13), local transverse forces (6.1.7.2, 6.1.7.3) and rotational and shear stiffness of sheeting (10.17, 10.1b) follow the code.",
 ["inputs","histories"],"every polyline, division, translation and wall change of the bounds; every section and sequence of loads; every combination of arguments of the rules",
 "Annex C and the rules switch branch on ratios of dimensions and the effective section is kept in the object; no stable test touches cold-formed sections.",["metku/eurocodes/en1993/en1993_1_3/open_prof.py","metku/eurocodes/en1993/en1993_1_3/cf_profs.py","metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py"],
 [("annexC","metku/eurocodes/en1993/en1993_1_3/open_prof.py: OpenProf, Segment, split_segment"),("sections","metku/eurocodes/en1993/en1993_1_3/cf_profs.py: ZSection, CSection: effective_section, create_effective_model, create_edge_stiffener, distortional_buckling, axial_force_resistance"),("rules","metku/eurocodes/en1993/en1993_1_3/en1993_1_3.py: RwRd, RwRd_two_webs, screw_bearing_resistance, CD_A")])
p("C29","Wind loads follow EN 1991-1-4",
 "Peak velocity pressure depends on terrain category, height above ground and basic velocity as EN 1991-1-4, 4.3-4.5 prescribe (constant below the least height of the terrain, not falling with height or smoother terrain, quadratic in velocity). For every rectangular building and wind direction, walls are divided into zones A-E with the coefficients of Table 7.1 (interpolated in h/d), flat and monopitch roofs into zones F-I with the sizes of Figs. 7.6 and 7.7 and the coefficients of Tables 7.2 and 7.3 (interpolated in the angle); external coefficients interpolate between cpe,1 and cpe,10 logarithmically in the loaded area (Fig. 7.2) and the pressure is their product with the peak pressure. Changing the wind direction or building gives the values of the new situation.",
 ["inputs","histories"],"every combination of building dimensions, wind direction, roof angle, terrain, height and loaded area of the bounds, and every sequence of changes of them",
 "The zones and coefficients change their defining dimension with e against d and with h/d, each branch is reached by a range of dimensions only; no stable test touches wind loads.",["metku/eurocodes/en1991/en1991_1_4.py"],
 [("pressure","metku/eurocodes/en1991/en1991_1_4.py: WindLoad, peak_velocity_pressure and the functions it uses"),("zones","metku/eurocodes/en1991/en1991_1_4.py: walls, flat roof and monopitch roof")])
p("C30","Composite beams, tubes and studs follow EN 1994-1-1",
 "Shear studs have the smaller of shank and concrete resistance of EN 1994-1-1, 6.6.3.1. The composite beam has the plastic neutral axis for which the compressive and tensile resultants balance, whether in the slab, the flange or the web, and the bending resistance of these blocks. A concrete filled tube has areas, second moments, plastic resistance, effective stiffness with creep (6.7.3.3), relative slenderness, buckling resistance about both axes and the points A-D of the interaction curve (6.7.3.2) of its present steel tube, concrete and reinforcement; reinforcement and steel are counted once and no value depends on which was asked for first.",
 ["inputs","histories"],"every combination of section, concrete, reinforcement, length and load of the bounds and every sequence of evaluations",
 "The neutral axis moves between slab, flange and web with the ratio of the parts, and the objects are evaluated repeatedly with different loads; no stable test touches composite members.",["metku/eurocodes/en1994/en1994_1_1.py","metku/sections/composite"],
 [("studs","metku/eurocodes/en1994/en1994_1_1.py: shear studs"),("members","metku/sections/composite: ConcreteFilledTube, ConcreteFilledRHS, ConcreteFilledSHS, composite beam")])
p("C31","Timber sections in fire and timber members follow EN 1995",
 "The residual section of a timber member after any fire duration is the present section reduced on the exposed sides by the charring of EN 1995-1-2 (initial protection, failure of the protection, doubled speed after it, normal speed) and the zero-strength layer; charring never goes back with time and protection never increases it, whatever order fire, protection and dimensions were set in, and tapered sections and their analysis elements follow. For a timber member with any list of section forces, utilizations are those of EN 1995-1-1, 6.1-6.3: every force counts with its magnitude, each laterally unsupported part with the greatest forces on it and its own buckling length, lateral-torsional buckling included; clearing or adding forces, moving supports, joints or length gives the values of the new situation. Tapered, curved and pitched cambered beams have the apex factors of 6.4.",
 ["inputs","histories"],"every combination of timber, section, protection and time, every sequence of changing them, and every list of forces, supports and joints of the bounds",
 "Charring switches between four phases by the relation of times, and stability is evaluated per part from all stored forces; no stable test touches timber.",["metku/eurocodes/en1995","metku/sections/timber/timber_section.py","metku/structures/timber/timber_member.py"],
 [("charring","metku/eurocodes/en1995/en1995_1_2.py: charring_speed, d_char_n; fire_protection.py"),("sections","metku/sections/timber/timber_section.py: TimberSection, TaperedSection and subclasses"),("members","metku/structures/timber/timber_member.py: TimberMember: check_section, check_buckling, check_LT_buckling, design, apex checks")])
p("C32","Buckling loads, second-order analysis and flexible joints of frames",
 "Linear buckling analysis of a frame model returns the smallest positive load factors in increasing order (none for members in tension) with the mode shapes of the current model, one value for each degree of freedom. Second-order analysis gives the deflections and moments of EI v'''' + P v'' = q for members in compression (first-order ones in tension or without axial force). Both hold for hinges, supports, joints of given rotational stiffness at either end, and buckling also for springs and leaning columns; for any subdivision and direction of the elements, and regardless of earlier analyses and edits.",
 ["inputs","histories"],"every combination of base, top, stiffness, length, axial force and transverse loads of the bounds, columns in any direction and subdivision, every sequence of changing and analysing them",
 "Load factors and amplified moments have closed forms for every combination, and depend on element matrices, loads and forces of the analysis before; no stable test covers the finite element package.",["metku/framefem/framefem.py","metku/framefem/elements/ebbeam.py","metku/framefem/elements/eb_semi_rigid_beam.py","metku/framefem/elements/springs.py","metku/framefem/elements/rod.py"],
 [("buckling","metku/framefem/framefem.py: FrameFEM.linear_buckling, global_geometric_stiffness_matrix"),("second order","metku/framefem/framefem.py: FrameFEM.second_order; elements: second-order stiffness, loads and internal forces"),("joints","metku/framefem/elements/eb_semi_rigid_beam.py: EBSemiRigidBeam")],
 [("load factors and modes","smallest load factors and their shapes","values returned by linear_buckling, FEMNode.v"),("second-order results","deflections and element forces","FEMNode.u2, Element.fint")])
p("C33","Fin plate joints and the cost of making steel joints",
 "Resistances of a fin plate joint (bolts by the elastic bolt group, bearing, gross and net shear, block tearing, bending and lateral-torsional buckling of the plate, block tearing and shear of the beam web) and its edge distances and positioning checks follow from the current beam, plate, bolt and position (EN 1993-1-8, ECCS), and the costs of plates, fin plate and end plate joints and of each workshop cost centre (cutting, painting, blasting, welding, sawing) follow from the current quantities; neither depends on how the joint got its dimensions or on jobs evaluated before.",
 ["inputs","histories"],"every combination of beams, plates, bolts, rows and columns, spacings and positions of the bounds, and every sequence of changing them and evaluating resistances and costs",
 "Dimensions are shared by joint, plate, bolt and beam and changed one at a time, cost centres keep state between jobs; no stable test covers these joints or costs.",["metku/structures/steel/fin_plate_joint.py","metku/structures/steel/plates.py","metku/structures/steel/end_plate_joint.py","metku/cost/workshop.py","metku/cost/cost_data.py"],
 [("fin plate","metku/structures/steel/fin_plate_joint.py: FinPlateJoint"),("plates","metku/structures/steel/plates.py: RectPlate, RectPlateWithHoles"),("costs","metku/cost/workshop.py: Workshop and its cost centres; FinPlateJoint.cost, EndPlateJoint.cost")],
 [("resistances and distances","methods and properties of FinPlateJoint and RectPlateWithHoles","joint and plate"),("costs","values returned by cost and kept per part","joints, plates and cost centres")])
p("C34","Plane frames of the frame2d package",
 "A frame of members, supports, point loads and line loads analyses as the structure that was described, in whatever order it was put together and edited: members joined where they meet or cross, nodes at supports and point loads, every load acting once with its factor and line loads varying along the member, hinged, rigid and semi-rigid joints as set, self-weight added, renewed or removed with the profile; loads deleted or added count when the frame is generated again. Displacements, element forces, the extreme forces and utilisations kept for every load case, and sized profiles (adequate in every case, no earlier one of the list adequate) are those of that structure.",
 ["inputs","histories"],"frames with columns, beams, crossing and hinged members, every order of adding, deleting, generating, changing profile and joints and analysing the load cases of the bounds",
 "The model is put together step by step by objects that refer to each other; the tests of the frame package build one fixed frame in one order.",["metku/frame2d/frame2d.py"],
 [("frame","metku/frame2d/frame2d.py: Frame2D.add, generate, calculate, add_self_weight, remove_self_weight, optimize_members"),("members","metku/frame2d/frame2d.py: FrameMember.generate_elements, assign_forces, design, optimum_design, Sj1, Sj2"),("loads","metku/frame2d/frame2d.py: PointLoad, LineLoad, Support")],
 [("displacements","FEMNode.u of the analysis model","Frame2D.f"),("forces","element fint, NEd, VEd, MEd","FrameMember"),("utilisation and profiles","r, profile","FrameMember")])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    try: jsonschema.validate(q,s)
    except Exception as e: print(q['id'],e.message)
    if len(q['title'])>80: print('long',q['id'],len(q['title']))
