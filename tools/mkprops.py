#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
POL='pympc/geometry/polyhedron.py'; UT='pympc/geometry/utils.py'; DTS='pympc/dynamics/discrete_time_systems.py'
DM='pympc/dynamics/discretization_methods.py'; DU='pympc/dynamics/utils.py'; PP='pympc/optimization/parametric_programs.py'
PR='pympc/optimization/programs.py'; PN='pympc/optimization/solvers/pnnls.py'; GU='pympc/optimization/solvers/gurobi.py'
CO='pympc/control/controllers.py'

p('C01','Polyhedron constructors and add operations denote exactly the documented set',
 'A polyhedron built from matrices, bounds or symbolic affine expressions, and extended by any sequence of added inequalities, equalities, lower/upper bounds (optionally restricted to a list of coordinates, in the order the list gives them), contains a point exactly when the point satisfies the original constraints and every added one. Inputs of incoherent size are refused with ValueError, and neither the caller\'s arrays nor any other polyhedron change.',
 ['inputs','histories'],'all matrices, dimensions (including zero rows), index lists (any order) and sequences of add operations',
 'Tests compare matrices for a handful of 1-3 dimensional boxes with sorted indices; the claim is about every dimension, row count, index order and sequence.',
 [POL],[('add_inequality/add_equality/add_*_bound(s)/from_*',POL+':Polyhedron'),('selection of coordinates',POL+':Polyhedron._selection_matrix'),('symbolic extraction',POL+':get_matrices_affine_expression')])
p('C02','Membership test agrees with every constraint within the tolerance',
 'Asking a polyhedron whether it contains a point answers True exactly when every inequality is violated by at most the tolerance and every equality residual is at most the tolerance in absolute value, and it always answers, also for polyhedra without inequalities or without equalities.',
 ['inputs'],'all polyhedra, points and nonnegative tolerances',
 'Tests query three points against one box with one equality; a wrong combination over several rows is invisible there.',
 [POL],[('contains',POL+':Polyhedron.contains')])
p('C03','Intersection and Cartesian product are the set operations',
 'A point belongs to the intersection of two polyhedra exactly when it belongs to both, and a stacked pair belongs to the Cartesian product exactly when each part belongs to the respective factor, for polyhedra with any mix of inequalities and equalities. The operands are left unchanged, and the result starts with no inherited derived attributes.',
 ['inputs'],'all pairs of polyhedra of any dimensions and row counts, with cached attributes in any state',
 'Tests multiply a polyhedron with itself and intersect two boxes; blocks of different size, equalities on one side only and operand mutation are not sampled.',
 [POL],[('intersection',POL+':Polyhedron.intersection'),('cartesian_product',POL+':Polyhedron.cartesian_product')])
p('C04','Inclusion test decides set inclusion',
 'The inclusion query answers True exactly when every point of the first polyhedron satisfies all inequalities and equalities of the second (up to the tolerance), and answers (rather than failing) also when the first polyhedron is empty or unbounded.',
 ['inputs'],'all pairs of polyhedra in the same space, bounded or not, empty or not, with or without equalities',
 'Tests use 2-d boxes, all bounded and non-empty.',
 [POL],[('is_included_in',POL+':Polyhedron.is_included_in'),('one LP per row',PR+':linear_program')])
p('C05','Derived attributes never go stale',
 'After any sequence of constraint additions, normalizations, redundancy removals and queries, the emptiness, boundedness, Chebyshev radius and center, and vertices reported by a polyhedron are those of its current constraints, never those of an earlier state or of another polyhedron.',
 ['histories','inputs'],'all finite sequences of public operations interleaved with attribute queries',
 'A class invariant over all histories; the tests check one fixed sequence.',
 [POL],[('reset of cached attributes',POL+':Polyhedron._delete_attributes'),('cached properties',POL+':Polyhedron.empty/bounded/radius/center/vertices')])
p('C06','Normalization rescales without changing the set',
 'Normalizing a polyhedron leaves the described set unchanged, makes every constraint row of norm above the threshold a unit row with a consistently rescaled right-hand side, and leaves the other rows as they were; it does so for integer-valued matrices too and changes no array or polyhedron other than the one normalized.',
 ['inputs'],'all polyhedra, dtypes and thresholds',
 'Tests normalize one float matrix with an equality; sign, integer dtype and aliasing effects are not sampled.',
 [POL],[('normalize',POL+':Polyhedron.normalize')])
p('C07','Emptiness and boundedness answers are correct',
 'A polyhedron is reported empty exactly when no point satisfies its inequalities and equalities, and reported bounded exactly when it is empty or contains no ray, whatever mix of inequalities and equalities describes it.',
 ['inputs'],'all polyhedra',
 'Tests try about ten hand-made shapes; the claim rests on a theorem of alternatives applied to the right stacked matrix for every input.',
 [POL,UT,PN],[('empty',POL+':Polyhedron.empty'),('bounded',POL+':Polyhedron.bounded'),('nullspace_basis',UT)])
p('C08','Chebyshev radius and center are those of the largest inscribed ball',
 'For a polyhedron whose inscribed balls are bounded the reported center and radius describe a ball (within the affine space of the equalities) that satisfies every inequality, and no larger ball does; the radius is negative exactly when the inequalities are inconsistent. If arbitrarily large balls fit, radius and center are reported as None, with or without equalities.',
 ['inputs'],'all polyhedra with linearly independent equalities',
 'Tests check five boxes; the equality-elimination algebra must be right for every matrix.',
 [POL,UT],[('radius/center',POL+':Polyhedron._chebyshev'),('elimination of the equalities',POL+':Polyhedron._remove_equalities')])
p('C09','Redundancy removal keeps the set and leaves no redundant inequality',
 'Removing redundant inequalities from a non-empty polyhedron (with or without equalities) leaves the described set unchanged, keeps only rows of the original description, and leaves no inequality that could still be dropped; the list of minimal facets is that selection, and an empty polyhedron is reported (None, respectively ValueError) instead of being altered.',
 ['inputs'],'all non-empty polyhedra whose rows are either redundant or protrude by more than the tolerance',
 'Tests check two small examples; correctness depends on the order of the rows, on duplicates and on the relaxation used for every row.',
 [POL],[('minimal_facets',POL+':Polyhedron.minimal_facets'),('remove_redundant_inequalities',POL+':Polyhedron.remove_redundant_inequalities')])
p('C10','Vertices and orthogonal projections describe the polytope',
 'For a bounded full-dimensional polytope the reported vertices span exactly the polytope, and projecting onto chosen coordinates (in the given order) yields exactly the points that can be completed to a point of the polytope, and a polyhedron built from points is their convex hull; unbounded, empty or equality-constrained inputs of a projection are refused with ValueError and the projected polytope itself is not modified.',
 ['inputs'],'all bounded full-dimensional polytopes and coordinate selections',
 'Tests use boxes and a few random polytopes in low dimension with float data.',
 [POL,UT],[('vertices',POL+':Polyhedron.vertices'),('project_to',POL+':Polyhedron.project_to'),('convex hull method',POL+':convex_hull_method'),('plane_through_points',UT)])
p('C11','Linear programs: a returned solution is a certified optimum',
 'For every linear program with inequalities and optional equalities, the default solver either returns a point, value and multipliers that satisfy primal feasibility, dual feasibility and zero duality gap within the tolerance (hence an optimum with correctly signed multipliers and the stated value), or returns None in all fields when no such certificate exists. The reported active set is the set of inequalities with a positive multiplier, and the inputs are not modified.',
 ['inputs'],'all LP data and sizes, with and without equalities, feasible, infeasible or unbounded',
 'Tests solve a few 2-d programs with one equality; index bookkeeping of stacked blocks must be right for every size.',
 [PN,PR],[('linear_program',PN),('pnnls',PN),('dispatch',PR)])
p('C12','Quadratic programs: a returned solution satisfies the KKT conditions',
 'For every strictly convex quadratic program with inequalities and optional equalities, the default solver either returns a point and multipliers satisfying stationarity, primal feasibility, nonnegativity and complementarity together with the matching optimal value, or reports None in all fields exactly when the constraints are inconsistent. The reported active set is the set of inequalities with a positive multiplier, and the inputs are not modified.',
 ['inputs'],'all QP data and sizes, with and without equalities',
 'Tests solve a few 2-d programs; the reduction to nonnegative least squares must be right for every Hessian, gradient and constraint block.',
 [PN,PR],[('quadratic_program',PN),('dispatch',PR)])
p('C13','Gurobi back end poses and reads back exactly the stated program',
 'The LP, QP and mixed-integer QP passed to Gurobi have exactly the given cost, inequalities, equalities, free continuous variables and trailing binary variables (coefficients below the documented threshold may be dropped), and the returned value, minimizer, multipliers (nonnegative for inequalities) and active set are those of that program, None when it is not solved to optimality. The program front ends call the solver that was named and refuse unknown names.',
 ['inputs','configurations'],'all program data and sizes, with and without equalities, any number of binary variables',
 'Tests compare a few tiny programs; every row, column and sign must be transferred for every size.',
 [GU,PR],[('model construction',GU+':_build_model'),('solution extraction',GU+':_reorganize_solution'),('dispatch',PR)])
p('C14','Simulation follows the dynamics at every step',
 'Simulating a linear, affine or piecewise-affine system returns a trajectory that starts at the given state, has one state more than inputs, and satisfies the update equation at every step; for piecewise-affine systems each reported mode is one whose domain contains the state-input pair at that step, the lowest-numbered one, and a step outside all domains raises ValueError. Closed-loop simulation applies the feedback gain at every step.',
 ['inputs','histories'],'all systems, horizons, inputs and initial states',
 'Tests simulate short random sequences on 2-3 systems.',
 [DTS],[('simulate',DTS+':LinearSystem/AffineSystem/PieceWiseAffineSystem'),('get_mode',DTS+':PieceWiseAffineSystem.get_mode')])
p('C15','Condensed dynamics reproduce the simulation for every mode sequence',
 'For every linear, affine or piecewise-affine system and every mode sequence, the condensed matrices give, for any initial state and input sequence, exactly the stacked trajectory obtained by stepping the corresponding affine dynamics.',
 ['inputs','programs'],'all systems, mode sequences of any length with any repetition of modes, states and inputs',
 'Tests check a couple of fixed horizons; products of non-commuting matrices must be ordered correctly for every pair of times.',
 [DTS],[('condense',DTS+':condense_pwa_system'),('ordered product',DTS+':productory')])
p('C16','Discretized and symbolic systems equal their definition',
 'Discretizing a continuous-time linear or affine system gives, for explicit Euler, x + h times the derivative, and, for zero-order hold, the exact sampled dynamics read off the exponential of the augmented matrix, for any number of states and inputs; symbolic constructors reproduce the given affine expressions, linear ones refuse a nonzero offset, and incoherent sizes, negative steps or unknown methods raise ValueError.',
 ['inputs','configurations'],'all continuous-time systems, step sizes, methods and affine symbolic expressions',
 'Tests compare a few small systems with single inputs.',
 [DM,DTS,DU],[('explicit_euler, zero_order_hold',DM),('from_continuous, from_symbolic*',DTS),('check_affine_system',DU)])
p('C17','Infinite-horizon regulator: gain and cost-to-go are consistent',
 'For a controllable linear system the returned cost-to-go matrix and gain satisfy the Riccati equation with the gain minimizing the one-step cost-to-go, so that the closed-loop cost from any state equals the quadratic form; the controllability answer reflects the rank of all powers up to the state dimension and uncontrollable systems are refused with ValueError.',
 ['inputs'],'all controllable systems and positive (semi)definite weights',
 'Tests try random systems with identity weights only.',
 [DTS],[('solve_dare',DTS+':LinearSystem.solve_dare'),('controllable',DTS+':LinearSystem.controllable')])
p('C18','Maximal constraint-admissible invariant set is invariant, admissible and maximal',
 'For a stable closed loop and a bounded constraint polytope containing the origin, the computed set consists exactly of the states whose whole future trajectory satisfies the constraints (state constraints combined with the feedback input): it lies in the constraint set, is mapped into itself, and every state outside leaves the constraint set at some time. Unstable dynamics, unbounded sets or sets not containing the origin raise ValueError, and the given sets are not modified.',
 ['inputs','histories'],'all stable systems, gains and bounded inequality-form constraint sets; all future times',
 'Maximality and invariance quantify over all states and all times; tests simulate sampled states for a few steps.',
 [DTS],[('mcais',DTS+':mcais'),('LinearSystem.mcais',DTS)])
p('C19','Piecewise-affine systems: coherent construction, well-posedness and mode lookup',
 'A piecewise-affine system is constructed exactly when modes and domains agree in number and dimension (linear modes being treated as affine with zero offset), and is reported well posed exactly when no two domains share an interior point beyond the tolerance, for every pair of modes and also for unbounded domains.',
 ['inputs'],'all numbers of modes, domains bounded or not',
 'Tests use two or three bounded modes.',
 [DTS],[('constructor checks',DTS+':PieceWiseAffineSystem.__init__'),('is_well_posed',DTS+':PieceWiseAffineSystem.is_well_posed')])
p('C20','Linear MPC solves exactly the stated finite-horizon optimal control problem',
 'The condensed program of a model predictive controller assigns to every initial state and input sequence exactly the finite-horizon cost (stage costs plus terminal cost) of the simulated trajectory, and accepts exactly the input sequences whose trajectory satisfies the stage constraints at every step and the terminal constraint; the same holds for a piecewise-affine system with a fixed mode sequence. The feedforward is the minimizing sequence split into one input per step with its optimal cost, the feedback is its first input, and both are None when no sequence is feasible.',
 ['inputs','configurations'],'all systems, horizons of at least one step, weights, constraint sets given by inequalities, mode sequences and states',
 'Tests compare with LQR inside the invariant set and re-simulate a few sampled states with identity weights.',
 [CO,PP,DTS],[('condense_optimal_control_problem',CO),('feedforward/feedback',CO+':ModelPredictiveController'),('solve',PP+':MultiParametricQuadraticProgram.solve')])
p('C21','Parametric QP: fixed-parameter solve and explicit solution are optimal',
 'Solving a parametric quadratic program at a parameter returns the optimum of the full cost (including terms that depend only on the parameter) under the constraints at that parameter. Every critical region of the explicit solution returns, at each of its parameters, a primal point, multipliers and value that satisfy the optimality conditions of the program, the region being exactly where they do, and evaluating the explicit solution (or the explicit controller) at a parameter uses a region containing it, or returns None if there is none. For programs with bounded constraints, the reported feasible set contains exactly the parameters for which some decision satisfies the constraints. The centre of a facet of a region is a point of that facet.',
 ['inputs','configurations'],'all parametric QPs with positive definite decision Hessian, all active sets, all parameters',
 'Tests check a 1-d program and a few sampled states; each affine law must be optimal on its whole region.',
 [PP,CO],[('explicit_solve_given_active_set',PP),('solve',PP),('lookup',PP+':ExplicitSolution'),('get_feasible_set',PP),('feedforward_explicit',CO)])
p('C22','Hybrid MPC: the MIQP encodes exactly the piecewise-affine trajectories',
 'The mixed-integer program built for a hybrid controller admits, for every initial state, exactly the input sequences and mode sequences for which the state-input pair lies in the domain of the selected mode at every step, the state follows that mode\'s dynamics and the final state lies in the terminal set, with exactly the finite-horizon cost of that trajectory. The controller returns the inputs, states, modes and cost of the minimizer, its first input as feedback, and None when infeasible.',
 ['inputs','configurations'],'all piecewise-affine systems with bounded domains given by inequalities, any number of modes, horizons, weights, states',
 'Tests run one two-mode example with horizon 20; the big-M constants and block layout must be right for every number of modes, inputs and rows.',
 [CO,PP],[('big-M bounds',CO+':HybridModelPredictiveController._get_bigM_*'),('constraint assembly',CO+':_build_inequalities/_condense_*'),('feedforward',CO),('solve',PP+':MultiParametricMixedIntegerQuadraticProgram')])
p('C23','Linear-algebra helpers satisfy their definitions',
 'The nullspace helper returns an orthonormal basis of exactly the vectors mapped to zero; the independent-row helper returns increasing indices of linearly independent rows (of all rows if these are independent beyond the threshold); the plane helper returns a unit normal and a nonnegative offset of a plane through all given points; the row and vector comparison helpers answer True exactly when the two collections agree up to order (and, if requested, positive row scaling), including repeated rows; none of them modifies its inputs.',
 ['inputs'],'all matrices and point collections in general position',
 'Tests try a few fixed matrices without repeated rows and never look at the inputs afterwards.',
 [UT],[('nullspace_basis, plane_through_points, same_rows, same_vectors, linearly_independent_rows',UT)])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
