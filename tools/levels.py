"""Per-property notes for MANIFEST.json (written to tools/levels.json)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification: verification conditions from the real source, discharged by z3 and a term rewriter'
COMMON = ('All inputs, sizes and iterations (no bound), over the real source re-read on every run; floats as reals, numpy/scipy calls '
          'by assumed contracts, partial correctness. A run-time evaluation of the same contracts on generated inputs searches for '
          'failing inputs and stands in (bounded) where a change puts a function out of the verifier\'s reach. ')
N = {
 'C01': 'Every constructor and add operation, incl. symbolic ones (sympy: coefficients of affine expressions assumed).',
 'C02': 'contains, exact equivalence with the tolerance-relaxed constraints.',
 'C03': 'intersection and cartesian_product, membership equivalence, frame of the operands.',
 'C04': 'is_included_in against the contracts of linear_program (C11, tolerances taken as zero) and empty.',
 'C05': 'Class invariant per operation: writers clear (or keep the set), queries store only the answer for the current constraints.',
 'C06': 'normalize incl. integer data; invariants of its loop.',
 'C07': 'empty and bounded against the contracts of the programs; theorem of Stiemke and LP duality assumed.',
 'C08': '_chebyshev, radius, center, _remove_equalities against the LP contract and the nullspace contract (C23).',
 'C09': 'minimal_facets by a loop invariant with witnesses; assumes rows are redundant or protrude by more than the tolerance.',
 'C10': 'project_to, convex_hull_method and its helpers, vertices; Qhull (scipy.spatial) by assumed contracts, separation of facets '
        'beyond the tolerance assumed.',
 'C11': 'linear_program, pnnls, nnls of the default back end; scipy.optimize.nnls and numpy pinv by assumed contracts.',
 'C12': 'quadratic_program of the default back end; nnls, cholesky, inv by assumed contracts.',
 'C13': 'Gurobi back end and the front ends; gurobipy is a stub here, its modelling API is an assumed contract.',
 'C14': 'simulate, simulate_closed_loop, get_mode by recurrences over all steps.',
 'C15': 'productory and condense for every mode sequence, with proved lemmas by induction.',
 'C16': 'discretizations and symbolic constructors; expm and sympy by assumed contracts.',
 'C17': 'solve_dare and controllable; scipy Riccati solver and matrix_rank by assumed contracts.',
 'C18': 'mcais by a loop invariant over all times; LP contract, eigenvalue moduli and the origin tolerance assumed.',
 'C19': 'constructor and is_well_posed for any number of modes, against contracts of intersection, empty, radius.',
 'C20': 'condensing of the optimal control problem, constructor, feedforward and feedback for any horizon.',
 'C21': 'parametric QP, critical regions and explicit solution; inverse and rank by assumed contracts.',
 'C22': 'big-M constants, inequalities, condensing, constructor, solve, feedforward, feedback for any horizon and number of modes.',
 'C23': 'nullspace_basis, plane_through_points, same_rows, same_vectors, linearly_independent_rows; svd, qr, rank, solve by assumed contracts.',
}
json.dump({k: {'technique': TECH, 'level': 'proof', 'note': COMMON + v} for k, v in N.items()}, open(os.path.join(HERE, 'levels.json'), 'w'), indent=1)
