"""C04, C07, C08: questions answered through linear and quadratic programs."""
from ._lib import *
from ._solvers import *

TOL = T(1.e-7)
ROUND = T(1.e-10)


def in_within(o, x, tol):
    """x satisfies the constraints of the polyhedron within the tolerance."""
    A, b, C, d = snap(o)
    r = sub_(ar.dot(C, x), d)
    return And(rows_le(A, x, b, tol), all_le(r, Val(r.dims, lambda l: tol)), all_le(neg(r), Val(r.dims, lambda l: tol)))


def is_included_in(s, dt):
    n = s.dim('n', 1)
    o1, o2 = polyhedron(s, '1', n, caches=True), polyhedron(s, '2', n, caches=True)
    s1, s2 = snap(o1), snap(o2)
    x = s.arr('x', n)
    tol = TOL if dt else s.real('tol')
    if not dt:
        s.assume(Le(0, tol))
    xs = lambda dx: Val([dx], lambda l: Term.atom('x', ar.flat(dx, l)))
    # ghost proposition: every point of the first polyhedron satisfies the second within the tolerance; used at the points
    # and rays that the programs return (rays: recession directions of a non-empty included set, lemma below)
    inc = Pred('included')
    zero = lambda sn: (sn[0], Val(sn[1].dims, lambda l: T(0)), sn[2], Val(sn[3].dims, lambda l: T(0)))
    pts = [xs]
    lp_contract(s, pts, on_point=lambda p: s.assume(Implies(And(inc, member(None, p, s1)), in_within(o2, p, tol))),
                on_ray=lambda p: s.assume(Implies(And(inc, member(None, p, zero(s1))), member(None, p, zero(s2)))))
    empty_contract(s, pts)
    r = s.method(o1, 'is_included_in', o2, *([] if dt else [tol]))
    if not r.ok:
        s.fail('always answers', r.exc)
        return
    s.unchanged()
    for o, sn in ((o1, s1), (o2, s2)):
        frame_obj(s, o, sn, 'operand')
        for k in CACHES:
            if not isinstance(o.attrs.get(k), Stale):
                s.fail('query leaves the polyhedra unchanged', k)
    got = ip.fm(r.value)
    if s.branch(got):
        s.prove('True only if every point is included', Implies(member(None, x, s1), in_within(o2, x.val(), tol)))
    else:
        s.prove('False only if some point is not included', Not(inc))


@scenario('C04', 'is_included_in', [GEO + ':Polyhedron.is_included_in'])
def _(s):
    is_included_in(s, 0)


@scenario('C04', 'is_included_in (default tolerance)', [GEO + ':Polyhedron.is_included_in'])
def _(s):
    is_included_in(s, 1)


@scenario('C04', 'lemma: rays of an included set', [GEO + ':Polyhedron.is_included_in'])
def _(s):
    """w + t r in the second set for all t >= 0 implies that no row grows along r (used at t beyond the bound of the row)."""
    a_w, a_r, b = s.real('aw'), s.real('ar'), s.real('b')
    t = s.real('t')
    # instance t = (b - a.w + 1) / a.r of the hypothesis for a row with a.r > 0
    s.assume(Lt(0, a_r))
    s.assume(Le(a_w, b))
    s.assume(Eq(t * a_r, b - a_w + 1))
    s.prove('the instance is nonnegative', Le(0, t))
    s.prove('and leaves the second set', Lt(b, a_w + t * a_r))


# ------------------------------------------------------------------ C07
def identity_positive(s):
    """The Hessian is positive definite: v^T H v is the sum of the squares of v, or a positive multiple."""
    def pre(H):
        v_ = Val([H.dims[0]], lambda l: Term.atom('ghostv', ar.flat(H.dims[0], l)))
        s.assume(Lt(0, sq_sum(v_)))
        s.prove('Hessian positive definite', Lt(0, ar.dot(ar.dot(v_, H), v_)))
    return pre


@scenario('C07', 'empty', [GEO + ':Polyhedron.empty'])
def _(s):
    n = s.dim('n', 1)
    o = polyhedron(s, '', n)
    sn = snap(o)
    x = s.arr('x', n)
    qp_contract(s, [point(s, 'x')], identity_positive(s))
    lp_contract(s, [point(s, 'x')])
    r = s.get(o, 'empty')
    if not r.ok:
        s.fail('always answers', r.exc)
        return
    s.unchanged()
    frame_obj(s, o, sn, 'polyhedron')
    if s.branch(ip.fm(r.value)):
        s.prove('empty only if no point satisfies the constraints', Not(member(None, x, sn)))
    else:
        w = [z[1]['x'] for z in s.c.calls if z[0] in ('qp', 'lp') and z[1]['solved']]
        if not w:
            s.fail('not empty only if there is a point', 'no point computed')
        else:
            s.prove('not empty only if there is a point', Or(*[member(None, p, sn) for p in w]))


@scenario('C07', 'bounded', [GEO + ':Polyhedron.bounded'], timeout=12000)
def _(s):
    n = s.dim('n', 1)
    o = polyhedron(s, '', n)
    sn = snap(o)
    A, b, C, d = sn
    m, p = dsize(A.dims[0]), dsize(C.dims[0])
    x, r_ = s.arr('x', n), s.arr('r', n)
    rv = r_.val()
    zero = (A, Val(b.dims, lambda l: T(0)), C, Val(d.dims, lambda l: T(0)))
    isray = member(None, rv, zero)
    # Stiemke's theorem for the rows (A; C; -C): weights y >= 1 with zero combination, or a direction t with A t <= 0, C t = 0
    # that some inequality strictly decreases along
    nm.rule('Farkas.lean stiemke_eq', 'theorem of Stiemke (alternative between positive weights and a non-trivial recession direction)')
    case = Pred('stiemke')
    yA, y1, y2 = s.arr('yA', m), s.arr('y1', p), s.arr('y2', p)
    t_ = s.arr('t', n)
    comb = [ar.dot(T_(M), q.val()) for M, q in ((A, yA), (C, y1), (C, y2))]
    s.assume(Implies(case, And(*[ar.forall_over(q.val().dims, lambda l, q=q: Le(1, q.val().at(l))) for q in (yA, y1, y2)])))
    s.assume(Implies(case, ar.forall_over(comb[0].dims, lambda l: Eq(comb[0].at(l) + comb[1].at(l) - comb[2].at(l), 0))))
    At = ar.dot(A, t_.val())
    s.assume(Or(case, And(member(None, t_, zero), Not(all_eq0(At)))))

    def ystack(dx):
        if not s.c.truth(IEq(dsize(dx), m + p + p)):
            return None
        at = lambda l: ar.flat(dx, l)
        q = lambda l: ite(ILt(at(l), m), Term.atom('yA', at(l)), ite(ILt(at(l), m + p), Term.atom('y1', at(l) - m), Term.atom('y2', at(l) - m - p)))
        return Val([dx], q)
    lp_contract(s, [ystack])
    qp_contract(s)
    empty_contract(s, [point(s, 'x')])
    nullspace_contract(s, [point(s, 'r')])
    r = s.get(o, 'bounded')
    if not r.ok:
        s.fail('always answers', r.exc)
        return
    s.unchanged()
    frame_obj(s, o, sn, 'polyhedron')
    lps = [z[1] for z in s.c.calls if z[0] == 'lp']
    nulls = [z for z in s.c.calls if z[0] == 'null']
    emp = [z for z in s.c.calls if z[0] == 'empty']
    wit = [z[3] for z in emp if not z[2]]
    if s.branch(ip.fm(r.value)):
        if emp and emp[-1][2]:
            s.prove('bounded because empty', Not(member(None, x, sn)))
            return
        s.assume(isray)
        for q in lps:
            if q['solved']:
                y = q['x']
                S_ = ar.dot(T_(q['C']), rv) if q['C'] is not None else None
                if S_ is None:
                    continue
                yr = ar.elementwise(lambda u, w: -(T(u) * T(w)), y, S_)
                weighted_zero(s, 'combination of the rows', sub_(ar.dot(q['C'], y), q['d']), rv)
                mul_nonneg(s, 'weights nonnegative, rows nonincreasing along the ray', yr.dims, y.at, lambda l: -T(S_.at(l)))
                sum_zero(s, 'weighted rows along the ray', yr.dims, yr.at)
                s.lemma('no row changes along the ray', all_eq0(S_))
        s.prove('bounded only if there is no ray', all_eq0(rv))
    else:
        if wit:
            s.prove('not empty', Or(*[member(None, w, sn) for w in wit]))
        else:
            s.fail('unbounded only if not empty', 'no witness')
        dirs = [Val([q[1].dims[1]], lambda l, q=q: q[2].at(l, (0, P(0)))) for q in nulls]
        for q in lps:
            if not q['solved']:
                # the cost of a ray of the program would be a sum of nonnegative terms
                ray = q['ray']
                s.c.explorers and None
                if s.branch(q['inf']):
                    pass
                else:
                    tot = sum_nonneg(s, 'cost along a ray of the program', ray.dims, lambda l: T(q['f'].at(l)) * T(ray.at(l)))
        goals = []
        for w in dirs:
            goals.append(And(member(None, w, zero), Lt(0, sq_sum(w))))
        s.prove('unbounded only if there is a ray', Or(*(goals + [And(member(None, t_, zero), Not(all_eq0(At)))])))


# ------------------------------------------------------------------ C08
def row_norms(A):
    """Euclidean norms of the rows."""
    return Val([A.dims[0]], lambda i: lg.derive('sqrt', nf.reduce_sum(Val([A.dims[1]], lambda j: T(A.at(i, j)) * T(A.at(i, j))), None)))


def ball(E, b, c, R):
    """Every row satisfied by the whole ball: E c + |E_i| R <= b (Cauchy-Schwarz)."""
    nm.rule('Rules.lean ball_in_halfspace', 'a ball lies in a half-space e.x <= b exactly when e.c + |e| R <= b')
    nr = row_norms(E)
    lhs = ar.dot(E, c)
    r = ar.elementwise(lambda u, w: u + w, lhs, Val(nr.dims, lambda l: T(nr.at(l)) * T(R)))
    return all_le(r, b)


def nonsing_by_nullspace(s):
    """C R is nonsingular: C R w = 0 puts R w into the nullspace of C, orthogonal to it, hence w = R^T R w = 0 (proved)."""
    def h(M):
        nulls = [z for z in s.c.calls if z[0] == 'null']
        if len(nulls) < 2:
            return False
        w = Val([M.dims[1]], lambda l: Term.atom('ghostw', ar.flat(M.dims[1], l)))
        N2 = nulls[-1]
        if not s.c.truth(IEq(dsize(M.dims[1]), N2[3])):
            return False
        mk = s.c.mark()
        w2 = Val([N2[2].dims[1]], lambda l: Term.atom('ghostw', l[1]))
        z = ar.dot(N2[2], w2)
        null_clause(s, nulls[0], z)
        s.assume(all_eq0(ar.dot(M, w)))
        s.lemma('vector in the nullspace of C', all_eq0(ar.dot(nulls[0][1], z)))
        s.lemma('vector is zero', all_eq0(z))
        j = fresh('colw', N2[3])
        ok = weighted_zero(s, 'C R injective: product with R is zero', z, Val([z.dims[0]], lambda l: T(N2[2].at(l, (0, V(j))))))
        ok = s.prove('C R injective', Eq(w2.at((0, V(j))), 0)) and ok
        s.c.rollback(mk)
        return ok
    s.c.nonsing.append(h)
    s.c.solve_by_inverse = True


@scenario('C08', 'radius and center', [GEO + ':Polyhedron._chebyshev', GEO + ':Polyhedron._remove_equalities', GEO + ':Polyhedron.radius', GEO + ':Polyhedron.center'],
          timeout=15000)
def _(s):
    n = s.dim('n', 1)
    eq = s.c.choose(2, 'equalities')
    p = s.dim('p', 1) if eq else P(0)
    o = polyhedron(s, '', n, p=p)
    sn = snap(o)
    A, b, C, d = sn
    x2 = s.arr('x2', n).val()
    R2 = s.real('R2')
    pts = []

    def big(dx):
        """The other ball in the coordinates of the program."""
        nulls = [z for z in s.c.calls if z[0] == 'null']
        if eq:
            if len(nulls) < 2:
                return None
            N = nulls[0][2]
            z = ar.dot(T_(N), x2)
        else:
            z = x2
        if not s.c.truth(IEq(dsize(dx), dsize(z.dims[0]) + 1)):
            return None
        flat(z)
        return ar.concat([z, Val([D(1)], lambda l: -R2)], 0)

    def flat(z):
        """A row constant on the affine space of the equalities up to the tolerance of the code is constant: it vanishes there."""
        nulls = [z for z in s.c.calls if z[0] == 'null']
        if not eq or not nulls:
            return
        nm.trust('tolerance 1e-10 of _chebyshev treated as exact: a row constant on the affine space of the equalities up to it is constant')
        E = ar.dot(A, nulls[0][2])
        nE, nA, Ez = row_norms(E), row_norms(A), ar.dot(E, z)
        s.assume(ar.forall_over([A.dims[0]], lambda i: Implies(Le(T(nE.at(i)), ROUND * T(nA.at(i))), And(Eq(T(nE.at(i)), 0), Eq(Ez.at(i), 0)))))

    def flat_of(x):
        k = [z for z in s.c.calls if z[0] == 'null']
        if eq and k:
            flat(ray_parts(x, k[0][3])[0])
    lp_contract(s, [big], on_point=flat_of, on_ray=flat_of)
    nullspace_contract(s)
    nonsing_by_nullspace(s)
    a1 = s.method(o, '_chebyshev')
    nulls = [z for z in s.c.calls if z[0] == 'null']
    if not a1.ok:
        if eq and nulls and a1.exc == 'ValueError':
            k = nulls[0][3]
            s.prove('refused only for dependent equalities or a point', Or(IEq(k, 0), Not(IEq(k, n - p))))
        else:
            s.fail('answers', a1.exc)
        return
    s.unchanged()
    frame_obj(s, o, sn, 'polyhedron')
    R, c = a1.value
    if (R is None) != (c is None):
        s.fail('radius and center together', 'only one is None')
        return
    E = A
    if eq:
        if not nulls:
            raise Unsupported('equalities removed in an unknown way')
        N = nulls[0][2]
        E = ar.dot(A, N)
    if c is not None:
        cv = c.val()
        if eq:
            s.prove('center satisfies the equalities', rows_eq(C, cv, d))
        s.prove('the ball satisfies every inequality', ball(E, b, cv if not eq else cv, R) if not eq else ball_eq(A, E, b, cv, R))
        s.assume(ar.forall_over([E.dims[0]], lambda i: Le(0, nf.reduce_sum(Val([E.dims[1]], lambda j: T(E.at(i, j)) * T(E.at(i, j))), None))))
        s.prove('nonnegative radius: the center belongs to the polyhedron', Implies(Le(0, T(R)), member(None, cv, sn)))
        s.assume(ball(A, b, x2, R2) if not eq else And(rows_eq(C, x2, d), ball_eq(A, E, b, x2, R2)))
        if eq:
            reach(s, A, C, d, x2, nulls)
        s.prove('no larger ball', Le(R2, T(R)))
    else:
        lps = [z[1] for z in s.c.calls if z[0] == 'lp']
        if not lps:
            s.fail('None only if arbitrarily large balls fit', 'no program')
            return
        if 'ray' not in lps[-1]:
            s.fail('None only if arbitrarily large balls fit', 'the program has a solution')
            return
        ray = lps[-1]['ray']
        t = s.real('t')
        s.assume(Le(0, t))
        other = ball(A, b, x2, R2) if not eq else And(rows_eq(C, x2, d), ball_eq(A, E, b, x2, R2))
        s.assume(other)
        if eq:
            reach(s, A, C, d, x2, nulls)
        nE = dsize(E.dims[1])
        rc, rt = ray_parts(ray, nE)
        dirn = rc if not eq else ar.dot(N, rc)
        x3 = ar.elementwise(lambda u, w: u + t * w, x2, dirn)
        R3 = R2 - t * rt
        s.prove('None: the radius grows along the ray', Lt(rt, 0))
        s.prove('None: every ball can be enlarged', ball(A, b, x3, R3) if not eq else And(rows_eq(C, x3, d), ball_eq(A, E, b, x3, R3)))


def reach(s, A, C, d, x2, nulls):
    """Every solution of the equalities is R (C R)^-1 d + N N^T x."""
    if not s.c.inverses or len(nulls) < 2:
        raise Unsupported('no particular solution of the equalities')
    N, R_ = nulls[0][2], nulls[1][2]
    c0 = ar.dot(R_, ar.dot(s.c.inverses[-1][1], d))
    df = sub_(x2, c0)
    null_clause(s, nulls[0], df)
    s.lemma('difference in the nullspace', all_eq0(ar.dot(C, df)))
    w = ar.dot(N, ar.dot(T_(N), df))
    rows_zero(s, 'difference spanned by the basis', A, sub_(df, w))


def ball_eq(A, E, b, c, R):
    """As ball, the norms being those of the rows within the affine space of the equalities."""
    nr = row_norms(E)
    r = ar.elementwise(lambda u, w: u + w, ar.dot(A, c), Val(nr.dims, lambda l: T(nr.at(l)) * T(R)))
    return all_le(r, b)


def ray_parts(ray, nE):
    d0 = ray.dims[0]
    a, m1, _ = ar.align(d0, ar.concat([Val([D(nE)], lambda l: T(0)), Val([D(1)], lambda l: T(0))], 0).dims[0])
    rc = Val([D(nE)], lambda l: ray.at(m1((0, l[1]))))
    return rc, T(ray.at(m1((1, P(0)))))
