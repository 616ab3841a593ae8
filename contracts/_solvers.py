"""Contracts of the linear and quadratic program front ends, of the nullspace helper and of `empty`, as used by their callers.

Proved in C11 / C12 up to the solver tolerance 1e-7; the callers use the exact statements (tolerances of the solvers treated
as zero; listed in the evidence as an assumption).  `Optimal value not attained` of a feasible program means unbounded (duality
theorem of linear programming, proved in lemmas/Farkas.lean)."""
from ._lib import *

EXACT = 'programs solved exactly: the 1e-7 tolerances of the solvers are treated as zero by their callers'
DUALITY = 'fundamental theorem of linear programming: without optimum there is no feasible point, or a feasible ray of negative cost'


def feasible(A, b, C, d, x):
    f = rows_le(A, x, b)
    if C is not None:
        f = And(f, rows_eq(C, x, d))
    return f


def opt(args, kw, names):
    out = []
    for k, n in enumerate(names):
        out.append(args[k] if k < len(args) else kw.get(n))
    return out


def lp_contract(s, points=(), on_point=None, on_ray=None, feas=None):
    """Solved: a feasible point x with f.x minimal (clause instantiated at the ghost points).  Not solved: no ghost point is
    feasible, or there is a ray: A r <= 0, C r = 0, f.r < 0.  on_point / on_ray: called with every point / ray introduced.
    feas(A, b, C, d, x, ray): the caller's own (equivalent) way of writing the constraints."""
    plain = feasible
    def h(it, args, kw):
        nm.trust(EXACT)
        f, A, b, C, d, sol_ = opt(args, kw, ('f', 'A', 'b', 'C', 'd', 'solver'))
        f, A, b = val(f), val(A), val(b)
        if (C is None) != (d is None):
            raise PyRaise('ValueError')
        C, d = (None, None) if C is None else (val(C), val(d))
        # the solver needs coherent sizes
        ar.align(A.dims[0], b.dims[0])
        dx, ma, mf = ar.align(A.dims[1], f.dims[0])
        name, ix = it.fresh_name('lp')
        call = {'f': f, 'A': A, 'b': b, 'C': C, 'd': d}
        gh = [g for g in [g(dx) for g in points] if g is not None]
        feasible = plain if feas is None else (lambda A_, b_, C_, d_, x_, ray=False: feas(A_, b_, C_, d_, x_, ray, plain))
        if s.c.branch(Pred(name, *ix)):
            x, _ = nf.fresh_vec(it, 'lpx', dx)
            s.assume(feasible(A, b, C, d, x))
            mn = ar.dot(f, x)
            for g in gh:
                s.assume(Implies(feasible(A, b, C, d, g), Le(mn, ar.dot(f, g))))
            if on_point is not None:
                on_point(x)
            mu, _ = nf.fresh_vec(it, 'lpm', A.dims[0])
            s.assume(all_le(neg(mu)))
            call.update(x=x, min=mn, solved=True)
            s.c.calls.append(('lp', call))
            return DObj({'min': mn, 'argmin': Arr(x), 'active_set': Opaque('active'), 'multiplier_inequality': Arr(mu),
                         'multiplier_equality': Opaque('multipliers') if C is not None else None})
        nm.rule('Farkas.lean lp_alternative', DUALITY)
        inf = Pred(name + '.inf', *ix)
        r, _ = nf.fresh_vec(it, 'ray', dx)
        for g in gh:
            s.assume(Implies(inf, Not(feasible(A, b, C, d, g))))
        zero = lambda v_: Val(v_.dims, lambda *l: T(0))
        fr = (lambda *a: feasible(*a, ray=True)) if feas is not None else feasible
        s.assume(Or(inf, And(fr(A, zero(b), C, None if d is None else zero(d), r), Lt(ar.dot(f, r), 0))))
        s.assume(Implies(all_eq0(r), Eq(ar.dot(f, r), 0)))
        if on_ray is not None:
            on_ray(r)
        call.update(solved=False, ray=r, inf=inf)
        s.c.calls.append(('lp', call))
        return DObj({k: None for k in ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')})
    s.it.contracts[PRG + ':linear_program'] = h
    s.it.contracts[NNL + ':linear_program'] = h


def qp_contract(s, points=(), pre=None):
    """Strictly convex quadratic program (pre: proof of the precondition): the minimizer, or None if no point is feasible."""
    def h(it, args, kw):
        nm.trust(EXACT)
        H, f, A, b, C, d, sol_ = opt(args, kw, ('H', 'f', 'A', 'b', 'C', 'd', 'solver'))
        H, f, A, b = val(H), val(f), val(A), val(b)
        if pre is not None:
            pre(H)
        if (C is None) != (d is None):
            raise PyRaise('ValueError')
        C, d = (None, None) if C is None else (val(C), val(d))
        ar.align(A.dims[0], b.dims[0])
        dx, _, _ = ar.align(A.dims[1], f.dims[0])
        name, ix = it.fresh_name('qp')
        call = {'H': H, 'f': f, 'A': A, 'b': b, 'C': C, 'd': d}
        gh = [g for g in [g(dx) for g in points] if g is not None]
        cost = lambda x: T(0.5) * ar.dot(ar.dot(x, H), x) + ar.dot(f, x)
        if s.c.branch(Pred(name, *ix)):
            x, _ = nf.fresh_vec(it, 'qpx', dx)
            s.assume(feasible(A, b, C, d, x))
            mn = cost(x)
            for g in gh:
                s.assume(Implies(feasible(A, b, C, d, g), Le(mn, cost(g))))
            mu, _ = nf.fresh_vec(it, 'qpm', A.dims[0])
            s.assume(all_le(neg(mu)))
            call.update(x=x, min=mn, solved=True, mu=mu)
            s.c.calls.append(('qp', call))
            return DObj({'min': mn, 'argmin': Arr(x), 'active_set': Opaque('active'), 'multiplier_inequality': Arr(mu),
                         'multiplier_equality': Opaque('multipliers') if C is not None else None})
        for g in gh:
            s.assume(Not(feasible(A, b, C, d, g)))
        call.update(solved=False)
        s.c.calls.append(('qp', call))
        return DObj({k: None for k in ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')})
    s.it.contracts[PRG + ':quadratic_program'] = h
    s.it.contracts[NNL + ':quadratic_program'] = h


def empty_contract(s, points=()):
    """Polyhedron.empty (C07): True iff no point satisfies the constraints (ghost points / a witness)."""
    def h(it, args, kw):
        o = args[0]
        A, b, C, d = snap(o)
        name, ix = it.fresh_name('empty')
        dx = A.dims[1]
        if s.c.branch(Pred(name, *ix)):
            for g in points:
                g = g(dx)
                if g is not None:
                    s.assume(Not(feasible(A, b, C, d, g)))
            s.c.calls.append(('empty', o, True, None))
            return True
        w, _ = nf.fresh_vec(it, 'wit', dx)
        s.assume(feasible(A, b, C, d, w))
        if isinstance(points, list):
            points.append(lambda dx: w)
        s.c.calls.append(('empty', o, False, w))
        return False
    s.it.contracts[GEO + ':Polyhedron.empty'] = h


def nullspace_contract(s, points=()):
    """nullspace_basis(C) (C23): N has columns with C N = 0, N^T N = I, and every vector with C z = 0 is N N^T z (clause
    instantiated at the ghost vectors; no columns means z = 0)."""
    def h(it, args, kw):
        C = val(args[0])
        name, ix = it.fresh_name('nul')
        k = nm.PA(name + '.k', *ix) if ix else V(name + '.k')
        n = dsize(C.dims[1])
        if ix:
            nm.reg_range(name + '.k', lambda a: n + 1)
        else:
            NONNEG[name + '.k'] = 0
            s.assume(ILe(k, n))
        if nf._multi(C.dims[1]):
            raise Unsupported('nullspace of a block matrix')
        N = Val([C.dims[1], D(k)], lambda a, b: Term.atom(name, *(list(ix) + ar.loc_leaves(a) + [b[1]])))
        c = s.c
        nf.add_zero_matrix(c, ar.dot(C, N), lambda fs: sum(10 for f in fs if f.name == name) + len(fs), 'nullspace')
        e1 = ar.dot(T_(N), N)
        nf.add_zero_matrix(c, Val([D(k), D(k)], lambda a, b: T(e1.at(a, b)) - Term.delta(a[1] - b[1])), lambda fs: len(fs), 'orthonormal')
        s.assume(ar.forall_over([D(k)], lambda b: Eq(nf.reduce_sum(Val([C.dims[1]], lambda a: N.at(a, b) * N.at(a, b)), None), 1)))
        s.c.calls.append(('null', C, N, k))
        for g in points:
            z = g(C.dims[1])
            if z is not None:
                null_clause(s, s.c.calls[-1], z)
        # rank-nullity for a matrix with orthonormal rows
        M = ar.dot(C, T_(C))
        ok, _, _ = c.check(val_eq(M, Val(M.dims, lambda a, b: Term.delta(ar.flat(M.dims[0], a) - ar.flat(M.dims[1], b)))), 2000)
        if ok:
            nm.rule('Rules.lean orthonormal_rows_nullity', 'rank-nullity theorem: a matrix with orthonormal rows has full row rank')
            s.assume(IEq(k, n - dsize(C.dims[0])))
        return Arr(N)
    s.it.contracts[GUT + ':nullspace_basis'] = h


def null_clause(s, call, z):
    """C z = 0 implies z = N N^T z, at the vector z."""
    _, C, N, k = call
    zero = rows_eq(C, z, Val([C.dims[0]], lambda l: T(0)))
    w = ar.dot(N, ar.dot(T_(N), z))
    s.assume(Implies(zero, ar.forall_over(z.dims, lambda l: Eq(z.at(l), w.at(l)))))
    s.assume(Implies(And(zero, IEq(k, 0)), all_eq0(z)))


def point(s, name):
    """Ghost point of any dimension."""
    return lambda dx: Val([dx], lambda l: Term.atom(name, ar.flat(dx, l)))
