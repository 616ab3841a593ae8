"""C10: vertices and orthogonal projections."""
from ._lib import *
from ._solvers import *
from .geometry_sets import index_list, sub
from .dynamics import item
from .geometry_queries import nonsing_by_nullspace
from vc import invloop
from vc.npmodel import OPAQUE

POL = GEO + ':Polyhedron.'
CHM = GEO + ':convex_hull_method'
TWO, SIM, EXP = GEO + ':_get_two_vertices', GEO + ':_get_inner_simplex', GEO + ':_expand_simplex'
QHULL = 'scipy.spatial.ConvexHull (Qhull): the equations hold with equality at some of the points, are not zero, and describe the convex hull'


def ghost(name, n):
    return Val([D(n)], lambda l: Term.atom(name, l[1]))


def head(x, n):
    """First n entries of a vector over a plain dimension."""
    return Val([D(n)], lambda l: x.at((0, l[1])))


def gval(it, prefix, *sizes):
    name, ix = it.fresh_name(prefix)
    return Val([D(z) for z in sizes], lambda *ls: Term.atom(name, *(list(ix) + [l[1] for l in ls])))


# ------------------------------------------------------------------ the hull object
def hull_getattr(it, o, n):
    if n == 'points':
        return Arr(o.cell.segs[0][1])
    if n == 'equations':
        return Arr(o.cell.segs[1][1])
    if n in ('vertices', 'simplices', 'volume', 'area', 'neighbors'):
        raise Unsupported('attribute %s of a hull' % n)
    return ip.ExtMethod(o, n)


def hull_call(it, o, n, a, k):
    if n == 'close' and not a:
        return None
    if n == 'add_points':
        return o.on_add(it, o, val(a[0]))
    raise Unsupported('method %s of a hull' % n)


OPAQUE['hull'] = {'getattr': hull_getattr, 'call': hull_call}


def make_hull(pts, eqs, inc, on_add):
    return Opaque('hull', cell=LObj.of([pts, eqs]), inc=inc, on_add=on_add, shared=True)


# ------------------------------------------------------------------ project_to
@scenario(['C10', 'C05'], 'project_to', [POL + 'project_to', POL + '__init__'])
def _(s):
    n = s.dim('n', 1)
    o = polyhedron(s, '', n, caches=True)
    sn = snap(o)
    s.protected = [o]
    k = s.dim('k', 1)
    lst, f = index_list(s, k, n)
    ans = {}

    def query(nme):
        def h(it, args, kw):
            if args[0] is not o:
                raise Unsupported('query of another set')
            ans[nme] = s.c.branch(Pred(nme))
            return ans[nme]
        return h
    s.it.contracts[POL + 'empty'] = query('empty')
    s.it.contracts[POL + 'bounded'] = query('bounded')
    q = s.dim('q')
    E, g = Arr(Val([D(q), D(k)], lambda a, b: Term.atom('E', a[1], b[1]))), Arr(Val([D(q)], lambda a: Term.atom('f', a[1])))
    vs = Opaque('vertices')
    seen = []

    def h(it, args, kw):
        a = opt(args, kw, ('A', 'b', 'resiudal_dimensions'))
        seen.append(a)
        return (E, g, vs)
    s.it.contracts[CHM] = h
    r = s.method(o, 'project_to', lst)
    s.unchanged()
    frame_obj(s, o, sn, 'projected polytope')
    bad = Or(Pred('empty'), Not(Pred('bounded')), ILe(1, dsize(sn[2].dims[0])))
    if not r.ok:
        s.expect_raise(r, 'ValueError', bad, 'empty, unbounded or equality-constrained sets')
        return
    s.expect_raise(r, 'ValueError', bad, 'empty, unbounded or equality-constrained sets')
    if len(seen) != 1:
        raise Unsupported('projection computed in another way')
    A, b, l = seen[0]
    s.prove('the inequalities of the polytope are projected', And(val_eq(val(A), sn[0]), val_eq(val(b), sn[1])))
    i = fresh('i', k)
    l = nm.aslist(l)
    s.prove('onto the given coordinates', And(IEq(P(l.length()), k), Forall([(i, k)], IEq(P(nm.list_getitem(l, I(V(i)))), f(V(i))))))
    p = r.value
    s.prove('the projection has the computed inequalities', And(val_eq(v(p, 'A'), E.val()), val_eq(v(p, 'b'), g.val()), IEq(dsize(v(p, 'C').dims[0]), 0)))
    for c in CACHES:
        z = p.attrs.get(c)
        s.prove('attributes of the projection: %s' % c, TRUE if z is None or (c == '_vertices' and z is vs) else FALSE)


# ------------------------------------------------------------------ two vertices
@scenario('C10', '_get_two_vertices', [TWO])
def _(s):
    n, N, m = s.dim('n', 1), s.dim('N', 1), s.dim('m')
    s.assume(ILe(n, N))
    A, b = s.arr('A', m, N), s.arr('b', m)
    x = ghost('x', N)
    bounded_nonempty(s, A.val(), b.val(), [lambda dx: Val([dx], lambda l: Term.atom('x', ar.flat(dx, l)))])
    r = s.call(s.it.get(GEO, '_get_two_vertices'), A, b, I(n))
    if not r.ok:
        s.fail('vertices are returned', r.exc)
        return
    s.unchanged()
    l = nm.aslist(r.value)
    s.prove('two vertices', IEq(P(l.length()), 2))
    vs = [val(nm.list_getitem(l, k)) for k in (0, 1)]
    for y in vs:
        s.prove('vertices of the projected dimension', IEq(dsize(y.dims[0]), n))
        is_projection(s, 'a vertex is the projection of a point of the polytope', y, n)
    y0 = [T(nm.at_locs(y, [('idx', P(0))])) for y in vs]
    inP = rows_le(A.val(), x, b.val())
    x0 = T(x.at((0, P(0))))
    between = lambda p, q: And(Le(p, x0), Le(x0, q))
    s.prove('they bound the first coordinate', Implies(inP, Or(between(*y0), between(y0[1], y0[0]))))


def bounded_nonempty(s, A, b, points):
    """linear_program over a nonempty bounded set is solved (C11)."""
    def h(it, args, kw):
        nm.trust('C11: linear programs over nonempty bounded sets are solved exactly')
        f, A_, b_, C, d, sol_ = opt(args, kw, ('f', 'A', 'b', 'C', 'd', 'solver'))
        if C is not None or d is not None:
            raise Unsupported('equalities')
        f, A_, b_ = val(f), val(A_), val(b_)
        s.prove('programs over the polytope', And(val_eq(A_, A), val_eq(b_, b)))
        dx, ma, mf = ar.align(A_.dims[1], f.dims[0])
        x, _ = nf.fresh_vec(it, 'lpx', A_.dims[1])
        s.assume(rows_le(A_, x, b_))
        mn = ar.dot(f, x)
        for g in points:
            g = g(A_.dims[1])
            s.assume(Implies(rows_le(A_, g, b_), Le(mn, ar.dot(f, g))))
        s.c.calls.append(('lp', {'f': f, 'x': x, 'min': mn}))
        return DObj({'min': mn, 'argmin': Arr(x), 'active_set': Opaque('active'), 'multiplier_inequality': Opaque('mult'),
                     'multiplier_equality': None})
    s.it.contracts[PRG + ':linear_program'] = h
    s.it.contracts[NNL + ':linear_program'] = h


def is_projection(s, name, y, n):
    """Some minimizer found so far starts with y."""
    xs = [c[1]['x'] for c in s.c.calls if c[0] == 'lp']
    fs = []
    for x in xs:
        k = fresh('k', n)
        fs.append(Forall([(k, n)], Eq(nm.at_locs(y, [('idx', V(k))]), nm.at_locs(x, [('idx', V(k))]))))
    s.prove(name, Or(*fs) if fs else FALSE)


# ------------------------------------------------------------------ convex hull method
@scenario('C10', 'convex_hull_method', [CHM], timeout=15000)
def _(s):
    N, m = s.dim('N', 1), s.dim('m')
    A, b = s.arr('A', m, N), s.arr('b', m)
    n = s.dim('n', 1)
    lst, f = index_list(s, n, N, injective=True)
    x = ghost('x', N)
    got = {}
    y = ghost('y', n)

    def reorder(A_, b_):
        """The columns are those of the residual coordinates followed by the others, each once."""
        if 'A' in got:
            s.prove('one polytope throughout', And(val_eq(A_, got['A']), val_eq(b_, got['b'])))
            return
        s.prove('right-hand side of the polytope', val_eq(b_, b.val()))
        i, k, k2, j = fresh('i', m), fresh('k', n), fresh('k', N), fresh('j', N)
        col = lambda r_, c_: nm.at_locs(A_, [('idx', P(r_)), ('idx', P(c_))])
        s.prove('residual coordinates first, in the given order', Forall([(i, m), (k, n)], Eq(col(V(i), V(k)), Term.atom('A', V(i), f(V(k))))))
        # index of the k-th dropped column
        if len(A_.dims[1]) != 2 or any(z.r for z in A_.dims[1]):
            raise Unsupported('columns not recognised')
        k3 = fresh('k', dsize((A_.dims[1][1],)))
        e = T(A_.at((0, V(i)), (1, V(k3))))
        t = e.single_atom() if hasattr(e, 'single_atom') else None
        if t is None:
            mos = list(e.m.values())
            if len(mos) == 1 and mos[0][1] == 1 and len(mos[0][0].factors) == 1 and not mos[0][0].bound:
                t = mos[0][0].factors[0]
        if t is None or t.name != 'A' or t.idx[0] != V(i):
            raise Unsupported('columns not recognised')
        phi = lambda q: t.idx[1].subst({k3: P(q)})
        cnt = dsize((A_.dims[1][1],))
        inres = lambda q: ip.fm(nm.contains(s.it, I(P(q)), lst))
        s.prove('the other columns are not residual', Forall([(k3, cnt)], Not(inres(phi(V(k3))))))
        q2 = fresh('q', cnt)
        s.prove('each other column once', Forall([(k3, cnt), (q2, cnt)], Or(IEq(V(k3), V(q2)), Not(IEq(phi(V(k3)), phi(V(q2)))))))
        s.prove('every other column', Forall([(j, N)], Or(inres(V(j)), Exists([(q2, cnt)], IEq(phi(V(q2)), V(j))))))
        s.assume(IEq(dsize(A_.dims[1]), N))
        got['A'], got['b'] = A_, b_
        nm.rule('Rules.lean partition_is_permutation', 'a list of different coordinates followed by the others, each once, is a permutation of the coordinates')

    def feas(p):
        return rows_le(got['A'], p, got['b'])

    def two(it, args, kw):
        A_, b_, n_ = opt(args, kw, ('A', 'b', 'n'))
        reorder(val(A_), val(b_))
        s.prove('dimension of the projection', IEq(P(n_), n))
        d = got['A'].dims[1]
        got['x'] = Val([d], lambda l: Term.atom('xr', ar.flat(d, l)))
        vs = [Val([d], lambda l, k=k: Term.atom('w%d' % k, ar.flat(d, l))) for k in (0, 1)]
        for w in vs:
            s.assume(feas(w))
        f0 = lambda w: T(nm.at_locs(w, [('idx', P(0))]))
        s.assume(Implies(feas(got['x']), And(Le(f0(vs[0]), f0(got['x'])), Le(f0(got['x']), f0(vs[1])))))
        # (there is a feasible point)
        s.assume(Le(f0(vs[0]), f0(vs[1])))
        if s.c.choose(2, 'order'):
            vs.reverse()
        got['w'] = vs
        got['two'] = LObj.of([Arr(Val([D(n)], lambda l, w=w: nm.at_locs(w, [('idx', l[1])]))) for w in vs])
        return got['two']
    s.it.contracts[TWO] = two

    def simplex(it, args, kw):
        A_, b_, vs = opt(args[:3], kw, ('A', 'b', 'vertices'))
        reorder(val(A_), val(b_))
        if vs is not got.get('two'):
            raise Unsupported('other initial vertices')
        s.prove('the simplex has at least two dimensions', ILe(2, n))
        got['simplex'] = Val([D(n + 1), D(n)], lambda a, c: Term.atom('sv', a[1], c[1]))
        return s.fam(n + 1, lambda k: Arr(Val([D(n)], lambda c: Term.atom('sv', P(k), c[1]))))
    s.it.contracts[SIM] = simplex

    def hull(it, args, kw):
        nm.trust(QHULL)
        pts = val(args[0])
        if 'simplex' not in got:
            raise Unsupported('hull of other points')
        s.prove('hull of the vertices of the simplex', val_eq(pts, got['simplex']))
        inc = kw.get('incremental', args[1] if len(args) > 1 else False)
        got['hull'] = make_hull(pts, None, inc, None)
        return got['hull']
    s.c.hull_hook = hull

    def expand(it, args, kw):
        A_, b_, h_ = opt(args[:3], kw, ('A', 'b', 'hull'))
        reorder(val(A_), val(b_))
        if h_ is not got.get('hull'):
            raise Unsupported('another hull')
        s.prove('points can be added to the hull', TRUE if h_.inc is True else FALSE)
        Q, K = V('Q'), V('K')
        NONNEG['Q'] = NONNEG['K'] = 1
        eqs = Val([D(Q), D(n + 1)], lambda a, c: Term.atom('eq', a[1], ar.flat(D(n + 1), c)))
        pts = Val([D(K), D(n)], lambda a, c: Term.atom('pt', a[1], c[1]))
        i, k = fresh('i', Q), fresh('k', n)
        d = got['A'].dims[1]
        xr = got['x']

        def inside(p):
            return Forall([(i, Q)], Le((Term.atom('eq', V(i), V(k)) * T(p(V(k)))).sum(k, n) + Term.atom('eq', V(i), n), 0))
        s.assume(Implies(feas(xr), inside(lambda q: nm.at_locs(xr, [('idx', P(q))]))))
        w = Val([d], lambda l: Term.atom('wy', ar.flat(d, l)))
        s.assume(Implies(inside(lambda q: y.at((0, P(q)))), And(feas(w), Forall([(k, n)], Eq(nm.at_locs(w, [('idx', V(k))]), y.at((0, V(k))))))))
        got['wit'] = w
        got['final'] = make_hull(pts, eqs, True, None)
        return got['final']
    s.it.contracts[EXP] = expand

    r = s.call(s.it.get(GEO, 'convex_hull_method'), A, b, lst)
    if not r.ok:
        s.fail('the projection is computed', r.exc)
        return
    s.unchanged()
    if 'A' not in got:
        raise Unsupported('projection computed in another way')
    E, g, vs = r.value
    E, g = val(E), val(g)
    s.prove('inequalities in the projected coordinates', IEq(dsize(E.dims[1]), n))
    ins = lambda p: rows_le(E, p, g)
    hy = Val([D(n)], lambda l: nm.at_locs(got['x'], [('idx', l[1])]))
    s.prove('projections of points of the polytope satisfy the inequalities', Implies(feas(got['x']), ins(hy)))
    if 'final' in got:
        w = got['wit']
        s.prove('every point of the inequalities is the projection of a point of the polytope',
                Implies(ins(y), And(feas(w), Forall([(fresh('k', n), n)], TRUE), ar.forall_over([D(n)], lambda l: Eq(nm.at_locs(w, [('idx', l[1])]), y.at(l))))))
        s.prove('vertices are the points of the hull', val_eq(val(vs), got['final'].cell.segs[0][1]) if isinstance(vs, Arr) else FALSE)
        return
    # one dimension: a point of the segment between two points of the polytope
    s.prove('one residual coordinate', IEq(n, 1))
    w0, w1 = got['w']
    f0 = lambda w: T(nm.at_locs(w, [('idx', P(0))]))
    y0 = T(y.at((0, P(0))))
    t = T(Term.atom('t'))
    lo, hi = f0(w0), f0(w1)
    s.assume(Or(And(Eq(lo, hi), Eq(t, 0)), And(Not(Eq(lo, hi)), Eq(t * (hi - lo), y0 - lo))))
    if not s.prove('position on the segment', Implies(ins(y), And(Le(0, t), Le(t, 1)))):
        return
    s.assume(ins(y))
    dA = [ar.dot(got['A'], w) for w in (w0, w1)]
    bb = got['b']
    for u, a_ in ((1 - t, dA[0]), (t, dA[1])):
        mul_nonneg(s, 'rows at the ends of the segment', a_.dims, lambda *l, u=u: u, lambda *l, a_=a_: T(bb.at(*l)) - T(a_.at(*l)))
    p = ar.elementwise(lambda p_, q_: (1 - t) * p_ + t * q_, w0, w1)
    s.prove('every point of the inequalities is the projection of a point of the polytope', And(feas(p), Eq(f0(p), y0)))
    s.prove('vertices are the two ends', TRUE if vs is got['two'] else FALSE)


# ------------------------------------------------------------------ inner simplex
def plane_contract(s):
    """plane_through_points (C23): a unit normal and the offset of a plane through the points."""
    def h(it, args, kw):
        nm.trust('C23: plane through points in general position')
        l = nm.aslist(args[0])
        k = P(l.length())
        q = fresh('q', k)
        p = val(nm.list_getitem(l, I(V(q))))
        s.prove('as many points as dimensions for the plane', IEq(dsize(p.dims[0]), k))
        a = gval(it, 'plane', k)
        name, ix = it.fresh_name('offset')
        d = T(Term.atom(name, *ix))
        s.assume(Forall([(q, k)], Eq(ar.dot(a, p), d)))
        s.assume(Eq(sq_sum(a), 1))
        s.c.calls.append(('plane', a, d, k))
        return (Arr(a), d)
    s.it.contracts[GUT + ':plane_through_points'] = h


class Vertices(object):
    """Invariant: the list holds as many vectors as its iteration count plus two, all projections of points of the polytope."""
    keep = ()

    def __init__(self, s, A, b, n, arg):
        self.s, self.A, self.b, self.n, self.arg = s, A, b, n, arg

    def find(self, frame):
        c = [z for z in frame.env.values() if isinstance(z, LObj) and z.segs and isinstance(z.segs[0][-1], Arr)]
        o = [z for z in c if z is not self.arg]
        c = o or c
        if any(z is not c[0] for z in c) or not c:
            raise Unsupported('state of the loop not recognised')
        return c[0]

    def enter(self, frame):
        l = self.find(frame)
        self.s.prove('initially: two vertices', IEq(P(l.length()), 2))
        for k in (0, 1):
            self.s.prove('initially: the given vertices', val_eq(val(nm.list_getitem(l, k)), val(nm.list_getitem(self.start, k))))

    def havoc(self, frame, j):
        s, n = self.s, self.n
        l = self.find(frame)
        name, _ = s.it.fresh_name('X')
        N = dsize(self.A.dims[1])
        X = lambda k: Val([self.A.dims[1]], lambda c: Term.atom(name, P(k), ar.flat(self.A.dims[1], c)))
        k = fresh('k', P(j) + 2)
        s.assume(Forall([(k, P(j) + 2)], rows_le(self.A, X(V(k)), self.b)))
        l.mutate([('fam', I(P(j) + 2), k, Arr(Val([D(n)], lambda c: Term.atom(name, V(k), c[1]))))])
        self.cur = (name, P(j) + 2)
        self.j = P(j)
        self.mark = len(s.c.calls)

    def objs(self, frame):
        return [self.find(frame)]

    def preserve(self, frame, j):
        s, n = self.s, self.n
        l = self.find(frame)
        s.prove('preserved: one vertex more', IEq(P(l.length()), P(j) + 3))
        name, cnt = self.cur
        k, c = fresh('k', cnt), fresh('c', n)
        if l.segs and l.segs[0][0] == 'fam':
            old = val(nm.vsubst(l.segs[0][3], {l.segs[0][2]: V(k)}))
            s.prove('preserved: the vertices found so far', And(IEq(P(l.segs[0][1]), cnt), Forall([(k, cnt), (c, n)], Eq(old.at((0, V(c))), Term.atom(name, V(k), V(c))))))
        else:
            raise Unsupported('list of vertices not recognised')
        new = val(l.segs[-1][1]) if l.segs[-1][0] == 'one' else None
        if new is None:
            raise Unsupported('list of vertices not recognised')
        s.prove('preserved: dimension of the new vertex', IEq(dsize(new.dims[0]), n))
        is_projection(s, 'preserved: the new vertex is the projection of a point of the polytope', new, n)
        pl = [q for q in s.c.calls[self.mark:] if q[0] == 'plane']
        if not pl:
            raise Unsupported('no plane through the vertices')
        _, a, d, kk = pl[-1]
        s.prove('preserved: the plane passes through all vertices found so far', IEq(kk, cnt))
        q = fresh('q', kk)
        e = (T(a.at((0, V(q)))) * T(nm.at_locs(new, [('idx', V(q))]))).sum(q, kk)
        s.prove('preserved: the new vertex is not on the plane through the others', Not(Eq(e, d)))


@scenario('C10', '_get_inner_simplex', [SIM])
def _(s):
    n, N, m = s.dim('n', 2), s.dim('N', 2), s.dim('m')
    s.assume(ILe(n, N))
    A, b = s.arr('A', m, N), s.arr('b', m)
    bounded_nonempty(s, A.val(), b.val(), [])
    lp = s.it.contracts[PRG + ':linear_program']

    def wide(it, args, kw):
        r = lp(it, args, kw)
        cs = [q[1] for q in s.c.calls if q[0] == 'lp']
        for q in cs[:-1]:
            ok, _, _ = s.c.check(val_eq(neg(q['f']), cs[-1]['f']), 2000)
            if ok:
                nm.trust('the projection is wider than twice the tolerance in every direction')
                s.assume(Lt(T(2e-7), -T(q['min']) - T(cs[-1]['min'])))
        return r
    s.it.contracts[PRG + ':linear_program'] = s.it.contracts[NNL + ':linear_program'] = wide
    plane_contract(s)
    first = [gval(s.it, 'v', n) for _k in (0, 1)]
    l = LObj.of([Arr(z) for z in first])
    sp = Vertices(s, A.val(), b.val(), n, l)
    sp.start = LObj.of([Arr(z) for z in first])

    def loop(frame, st, iterable):
        it_ = nm.aslist(iterable)
        cnt = P(it_.length())
        s.prove('one more dimension at every iteration', And(IEq(cnt, n - 1), IEq(P(nm.list_getitem(it_, 0)), 2)))
        invloop.for_loop(s, frame, st, n - 1, lambda j: I(P(j) + 2), sp)
    s.it.loop_contracts[(SIM, 'for')] = loop
    r = s.call(s.it.get(GEO, '_get_inner_simplex'), A, b, l)
    if not r.ok:
        s.fail('a simplex is found', r.exc)
        return
    s.unchanged()
    o = nm.aslist(r.value)
    s.prove('as many vertices as a simplex has', IEq(P(o.length()), n + 1))
    name, cnt = sp.cur
    k, c = fresh('k', n + 1), fresh('c', n)
    s.prove('all of them projections of points of the polytope', Forall([(k, n + 1), (c, n)], Eq(nm.at_locs(val(nm.list_getitem(o, I(V(k)))), [('idx', V(c))]), Term.atom(name, V(k), V(c)))))


# ------------------------------------------------------------------ expansion of the simplex
class Hull(object):
    """State of the hull: rows X[k] of full points (ghost; the hull sees the first n entries), equations with a touching point each."""

    def __init__(self, s, n, N, tag):
        it = s.it
        self.s, self.n, self.N = s, n, N
        self.X, _ = it.fresh_name('X' + tag)
        self.E, _ = it.fresh_name('E' + tag)
        self.t = it.fresh_name('touch')[0]
        self.K, self.Q = V(it.fresh_name('K')[0]), V(it.fresh_name('Q')[0])
        NONNEG[self.K.single()] = NONNEG[self.Q.single()] = 1
        nm.reg_range(self.t, lambda a: self.K)
        self.pts = Val([D(self.K), D(n)], lambda a, c: Term.atom(self.X, a[1], c[1]))
        self.eqs = Val([D(self.Q), D(n + 1)], lambda a, c: Term.atom(self.E, a[1], ar.flat(D(n + 1), c)))

    def full(self, k):
        return Val([D(self.N)], lambda c: Term.atom(self.X, P(k), c[1]))

    def at(self, q, p):
        """Equation q at a point given by its entries."""
        j = fresh('j', self.n)
        return (Term.atom(self.E, P(q), V(j)) * T(p(V(j)))).sum(j, self.n) + Term.atom(self.E, P(q), self.n)

    def at_point(self, q, k):
        return self.at(q, lambda j: Term.atom(self.X, P(k), P(j)))

    def sq(self, q):
        j = fresh('j', self.n)
        return (Term.atom(self.E, P(q), V(j)) * Term.atom(self.E, P(q), V(j))).sum(j, self.n)

    def below(self, q, k):
        self.s.assume(Implies(And(ILe(0, P(k)), ILt(P(k), self.K)), Le(self.at_point(q, k), 0)))

    def touching(self, q):
        t = PA(self.t, P(q))
        self.s.assume(And(ILe(0, t), ILt(t, self.K)))
        self.s.assume(Eq(self.at_point(q, t), 0))
        self.s.assume(Lt(0, self.sq(q)))
        return t


class Expansion(object):
    """Invariants of the two loops at an arbitrary point x of the polytope: every explored direction is at least as large at some
    point of the hull as at x; the points of the hull are projections of points of the polytope; the equations before the
    current one (all of them, if converged) hold at x."""

    def __init__(self, s, A, b, n, N, x, hull):
        self.s, self.A, self.b, self.n, self.N, self.x, self.hull = s, A, b, n, N, x, hull
        self.added = []
        self.i = None
        self.keep = ()

    # -- state
    def recognise(self, frame, st):
        out = invloop.assigned(st.body)
        env = frame.env
        fl = [k for k in out if k in env and isinstance(env[k], bool)]
        ls = [k for k, z in env.items() if isinstance(z, LObj)]
        hs = [k for k, z in env.items() if isinstance(z, Opaque) and z.kind == 'hull']
        if len(fl) != 1 or len(ls) != 1 or any(env[k] is not self.hull for k in hs) or not hs:
            raise Unsupported('state of the loop not recognised')
        self.flag, self.lst = fl[0], env[ls[0]]
        self.keep = set(fl)

    def getflag(self, frame):
        z = frame.env[self.flag]
        return (TRUE if z else FALSE) if isinstance(z, bool) else ip.fm(z)

    def new_explored(self):
        s = self.s
        name, _ = s.it.fresh_name('ex')
        w, _ = s.it.fresh_name('at')
        L = V(s.it.fresh_name('L')[0])
        NONNEG[L.single()] = 0
        H = self.H
        nm.reg_range(w, lambda a: H.K)
        l = fresh('l', L)
        self.lst.mutate([('fam', I(L), l, Arr(Val([D(self.n)], lambda c: Term.atom(name, V(l), c[1]))))])
        self.ex = (name, w, L)

    def dot_x(self, a):
        j = fresh('j', self.n)
        return (T(a(V(j))) * T(self.x.at((0, V(j))))).sum(j, self.n)

    def dot_pt(self, a, k):
        j = fresh('j', self.n)
        return (T(a(V(j))) * Term.atom(self.H.X, P(k), V(j))).sum(j, self.n)

    def known(self, l):
        """The invariant of the explored directions, at the direction l."""
        name, w, L = self.ex
        a = lambda j: Term.atom(name, P(l), P(j))
        self.s.assume(Le(self.dot_x(a), self.dot_pt(a, PA(w, P(l)))))

    def explored_ok(self, what):
        s = self.s
        segs = list(self.lst.segs)
        name, w, L = self.ex
        if segs and segs[0][0] == 'fam':
            q = fresh('q', L)
            e = val(nm.vsubst(segs[0][3], {segs[0][2]: V(q)}))
            s.prove(what + ': the explored directions are kept', And(IEq(P(segs[0][1]), L), Forall([(q, L)], ar.forall_over([D(self.n)], lambda c: Eq(e.at(c), Term.atom(name, V(q), c[1]))))))
            segs = segs[1:]
        for g in segs:
            if g[0] != 'one':
                raise Unsupported('explored directions not recognised')
            e = val(g[1])
            a = lambda j: nm.at_locs(e, [('idx', P(j))])
            cands = []
            for r in self.added:
                j = fresh('j', self.n)
                cands.append((T(a(V(j))) * T(nm.at_locs(r, [('idx', P(0)), ('idx', V(j))]))).sum(j, self.n))
            if self.t is not None:
                cands.append(self.dot_pt(a, self.t))
            s.prove(what + ': the hull reaches at least as far as the polytope in a direction marked as explored',
                    Or(*[Le(self.dot_x(a), c) for c in cands]))

    def on_add(self, it, o, rows):
        s = self.s
        if not o.inc:
            raise PyRaise('RuntimeError')
        s.prove('one point of the right dimension is added', And(IEq(dsize(rows.dims[0]), 1), IEq(dsize(rows.dims[1]), self.n)))
        is_projection(s, 'the added point is the projection of a point of the polytope',
                      Val([D(self.n)], lambda l: nm.at_locs(rows, [('idx', P(0)), ('idx', l[1])])), self.n)
        self.added.append(rows)
        h = Hull(s, self.n, self.N, 'n')
        self.H2 = h
        o.cell.mutate([('one', h.pts), ('one', h.eqs)])

    # -- outer loop
    def enter(self, frame):
        s = self.s
        s.prove('initially: no direction is explored', IEq(P(self.lst.length()), 0))
        s.prove('initially: not converged', Not(self.getflag(frame)))

    def havoc(self, frame, *a):
        if a:
            return self.inner_havoc(frame, a[0])
        s = self.s
        self.H = Hull(s, self.n, self.N, '')
        self.hull.cell.mutate([('one', self.H.pts), ('one', self.H.eqs)])
        self.new_explored()
        frame.setname(self.flag, ip.B(Pred('converged')))
        self.q = V(fresh('q', self.H.Q))
        s.assume(Implies(Pred('converged'), Le(self.H.at(self.q, lambda j: self.x.at((0, P(j)))), 0)))
        self.added, self.t = [], None

    def objs(self, frame):
        return [self.lst, self.hull.cell]

    def preserve(self, frame, *a):
        if a:
            return self.inner_preserve(frame, a[0])
        s = self.s
        self.explored_ok('preserved')
        H = self.H2 if self.added else self.H
        f = self.getflag(frame)
        s.prove('preserved: if converged, the equations hold on the polytope', Implies(f, Le(H.at(self.q, lambda j: self.x.at((0, P(j)))), 0)))

    # -- inner loop
    def inner(self, frame, st, iterable):
        s = self.s
        it_ = nm.aslist(iterable)
        i = fresh('i', self.H.Q)
        if isinstance(nm.list_getitem(it_, I(V(i))), (Arr, LObj, tuple, Obj, Opaque)):
            raise Unsupported('loop over something else than the indices of the equations')
        s.prove('one iteration per equation', And(IEq(P(it_.length()), self.H.Q), Forall([(i, self.H.Q)], IEq(P(nm.list_getitem(it_, I(V(i)))), V(i)))))
        s.prove('no counterexample so far', self.getflag(frame))
        self.explored_ok('at the start')
        sp = Inner(self)
        invloop.for_loop(s, frame, st, self.H.Q, lambda j: I(P(j)), sp)

    def inner_havoc(self, frame, i):
        s = self.s
        self.new_explored()
        H = self.H
        xs = lambda j: self.x.at((0, P(j)))
        if P(i) == H.Q:
            # all equations, hence the generic one
            s.assume(Le(H.at(self.q, xs), 0))
            self.i = None
            return
        self.i = P(i)
        self.t = H.touching(i)

    def inner_preserve(self, frame, i):
        s, H, n = self.s, self.H, self.n
        if self.added:
            raise Unsupported('points added without leaving the loop')
        s.prove('converged unless a point was added', self.getflag(frame))
        xs = lambda j: self.x.at((0, P(j)))
        goal = Le(H.at(i, xs), 0)
        new = [g for g in self.lst.segs if g[0] == 'one']
        self.explored_ok('preserved')
        if new:
            s.prove('preserved: the equation holds on the polytope', goal)
            return
        # explored before
        name, w, L = self.ex
        rn = nm.reciprocal(lg.derive('sqrt', H.sq(i))) if hasattr(nm, 'reciprocal') else None
        for scale in (rn, T(1)):
            a = lambda j: Term.atom(H.E, P(i), P(j)) * scale
            l, j = fresh('l', L), fresh('j', n)
            ex = Exists([(l, L)], Forall([(j, n)], Eq(a(V(j)), Term.atom(name, V(l), V(j)))))
            ok, _, _ = s.c.check(ex, 4000)
            if ok:
                break
        if not ok:
            # (not marked: it must hold by itself)
            s.prove('preserved: the equation holds on the polytope', goal)
            return
        s.prove('preserved: the direction was explored', ex)
        l0 = V(fresh('l', L))
        s.assume(And(ILe(0, l0), ILt(l0, L)))
        s.assume(Forall([(j, n)], Eq(a(V(j)), Term.atom(name, l0, V(j)))))
        self.known(l0)
        k0 = PA(w, l0)
        s.assume(And(ILe(0, k0), ILt(k0, H.K)))
        H.below(i, k0)
        z = Val([D(n)], lambda c: T(a(c[1])) - Term.atom(name, l0, c[1]))
        xv = Val([D(n)], lambda c: self.x.at((0, c[1])))
        pv = Val([D(n)], lambda c: Term.atom(H.X, k0, c[1]))
        weighted_zero(s, 'same direction', z, xv)
        weighted_zero(s, 'same direction', z, pv)
        s.prove('preserved: the equation holds on the polytope', goal)


class Inner(object):
    def __init__(self, e):
        self.e = e
        self.keep = e.keep

    def enter(self, frame):
        pass

    def havoc(self, frame, i):
        self.e.inner_havoc(frame, i)

    def preserve(self, frame, i):
        self.e.inner_preserve(frame, i)

    def objs(self, frame):
        return self.e.objs(frame)


@scenario('C10', '_expand_simplex', [EXP], timeout=15000)
def _(s):
    n, N, m = s.dim('n', 2), s.dim('N', 2), s.dim('m')
    s.assume(ILe(n, N))
    nm.trust(QHULL)
    nm.trust('numpy.allclose treated as exact equality')
    A, b = s.arr('A', m, N), s.arr('b', m)
    x = s.arr('x', N).val()
    s.assume(rows_le(A.val(), x, b.val()))
    bounded_nonempty(s, A.val(), b.val(), [lambda dx: Val([dx], lambda l: Term.atom('x', ar.flat(dx, l)))])
    h0 = Hull(s, n, N, '0')
    hull = make_hull(h0.pts, h0.eqs, True, lambda it, o, rows: sp.on_add(it, o, rows))
    sp = Expansion(s, A.val(), b.val(), n, N, x, hull)
    sp.H = h0
    lp = s.it.contracts[PRG + ':linear_program']

    def sep(it, args, kw):
        r = lp(it, args, kw)
        if sp.i is not None:
            nm.trust('tolerance 1e-7 of _expand_simplex treated as exact: no vertex exceeds a facet by an amount strictly between 0 and it')
            xm = s.c.calls[-1][1]['x']
            g = sp.H.at(sp.i, lambda j: nm.at_locs(xm, [('idx', P(j))]))
            s.assume(Or(Le(g, 0), Lt(T(1e-7) * lg.derive('sqrt', sp.H.sq(sp.i)), g)))
        return r
    s.it.contracts[PRG + ':linear_program'] = s.it.contracts[NNL + ':linear_program'] = sep
    s.c.allclose_hook = lambda it, a, k: nf.FN['numpy.array_equal'](it, a[:2], {})

    def outer(frame, st):
        sp.recognise(frame, st)
        invloop.while_loop(s, frame, st, sp)
    s.it.loop_contracts[(EXP, '*')] = outer
    s.it.loop_contracts[(EXP, 'for')] = sp.inner
    r = s.call(s.it.get(GEO, '_expand_simplex'), A, b, hull)
    if not r.ok:
        s.fail('the hull is expanded', r.exc)
        return
    s.unchanged()
    s.prove('the hull is returned', TRUE if r.value is hull else FALSE)
    H = sp.H
    s.prove('projections of points of the polytope satisfy the equations of the hull', Le(H.at(sp.q, lambda j: x.at((0, P(j)))), 0))
    # converse: a point of the hull is a combination of its points (Qhull), hence the projection of that combination
    lam = lambda k: Term.atom('lam', P(k))
    k, j, rr = fresh('k', H.K), fresh('j', N), fresh('r', m)
    s.assume(Forall([(k, H.K)], Le(0, lam(V(k)))))
    tot = lam(V(k)).sum(k, H.K)
    s.assume(Eq(tot, 1))
    full = lambda i: Val([D(N)], lambda c: Term.atom(H.X, P(i), c[1]))
    s.assume(Forall([(k, H.K)], rows_le(A.val(), full(V(k)), b.val())))
    r0 = V(fresh('r', m))
    slack = lambda i: T(b.val().at((0, r0))) - T(ar.dot(A.val(), full(i)).at((0, r0)))
    if mul_nonneg(s, 'weights and slacks', [D(H.K)], lambda l: lam(l[1]), lambda l: slack(l[1])):
        sum_nonneg(s, 'weighted slacks', [D(H.K)], lambda l: lam(l[1]) * slack(l[1]))
    w = Val([D(N)], lambda c: (lam(V(k)) * Term.atom(H.X, V(k), c[1])).sum(k, H.K))
    s.prove('combinations of points of the polytope are points of it', Le(ar.dot(A.val(), w).at((0, r0)), b.val().at((0, r0))))


# ------------------------------------------------------------------ vertices
HALF = ('scipy.spatial.HalfspaceIntersection (Qhull): for rows (a, -b) and an interior point, the intersections satisfy a x <= b and '
        'every point of a bounded set is a convex combination of them')


def combination(s, K, lam, what):
    """Sum over K of the weights times what(k)."""
    return nf.reduce_sum(Val([D(K)], lambda k: Term.atom(lam, k[1]) * T(what(k))), None)


def half_getattr(it, o, n):
    if n == 'intersections':
        return Arr(o.cell.segs[0][1])
    raise Unsupported('attribute %s of an intersection of half-spaces' % n)


OPAQUE['halfspaces'] = {'getattr': half_getattr}


@scenario(['C10', 'C05'], 'vertices', [POL + 'vertices', POL + '_remove_equalities'], timeout=12000)
def _(s):
    n = s.dim('n', 1)
    eq = s.c.choose(2, 'equalities')
    p = s.dim('p', 1) if eq else P(0)
    o = polyhedron(s, '', n, p=p)
    sn = snap(o)
    A, b, C, d = sn
    s.protected = [o]
    x = ghost('x', n)
    inx = member(o, x, sn)
    nullspace_contract(s)
    nonsing_by_nullspace(s)
    rad, c = Term.atom('rad'), Val([D(n)], lambda l: Term.atom('cen', l[1]))
    known = {}

    def own(it, args):
        if args[0] is not o:
            raise Unsupported('query of another set')

    def bounded(it, args, kw):
        own(it, args)
        known['bounded'] = s.c.branch(Pred('bounded'))
        return known['bounded']

    def radius(it, args, kw):
        own(it, args)
        if 'radius' not in known:
            known['radius'] = s.c.branch(Pred('rnone'))
        return None if known['radius'] else rad

    def center(it, args, kw):
        own(it, args)
        radius(it, args, kw)
        return None if known['radius'] else Arr(c)
    s.it.contracts[POL + 'bounded'] = bounded
    s.it.contracts[POL + 'radius'] = radius
    s.it.contracts[POL + 'center'] = center
    got = {}

    def space():
        """Rows E y <= f in the coordinates within the equalities; the center and the ghost point there."""
        if 'E' in got:
            return
        if not eq:
            got.update(E=A, f=b, y=x, cy=c)
        else:
            nulls = [z for z in s.c.calls if z[0] == 'null']
            if len(nulls) < 2 or not s.c.inverses:
                raise Unsupported('equalities removed in an unknown way')
            N, R_ = nulls[0][2], nulls[1][2]
            c0 = ar.dot(R_, ar.dot(s.c.inverses[0][1], d))
            got.update(E=ar.dot(A, N), f=sub_(b, ar.dot(A, c0)), y=ar.dot(T_(N), x), cy=ar.dot(T_(N), c), c0=c0, N=N, null=nulls[0])
            for z, hyp in ((x, inx), (c, rows_eq(C, c, d))):
                df = sub_(z, c0)
                if z is c:
                    s.assume(hyp)
                null_clause(s, nulls[0], df)
                if z is c:
                    s.lemma('center minus the particular solution', all_eq0(ar.dot(C, df)))
                    w = ar.dot(N, ar.dot(T_(N), df))
                    rows_zero(s, 'center within the equalities', A, sub_(df, w))
        E, f = got['E'], got['f']
        nr = ar.elementwise(lambda u: u, Val([E.dims[0]], lambda i: lg.derive('sqrt', nf.reduce_sum(Val([E.dims[1]], lambda j: T(E.at(i, j)) * T(E.at(i, j))), None))))
        # C08: the center; no zero row (nothing but the equalities makes the set lower dimensional)
        s.assume(ar.forall_over([E.dims[0]], lambda i: Lt(0, nr.at(i))))
        s.assume(ar.forall_over([E.dims[0]], lambda i: Le(T(ar.dot(A, c).at(i)) + T(nr.at(i)) * rad, b.at(i))))
        if s.c.truth(Lt(0, rad)):
            mul = lambda i: T(nr.at(i)) * rad
            s.assume(ar.forall_over([E.dims[0]], lambda i: Lt(0, mul(i))))

    def transpose_inverse(M):
        """The inverse of an orthogonal matrix is its transpose."""
        nulls = [z for z in s.c.calls if z[0] == 'null']
        if len(nulls) < 2 or len(M.dims[1]) != 2:
            return None
        Mt = T_(M)
        g = ar.dot(Mt, M)
        if not s.prove('change of coordinates is orthogonal', val_eq(g, Val(g.dims, lambda a, b_: Term.delta(ar.flat(g.dims[0], a) - ar.flat(g.dims[1], b_))))):
            return None
        nm.rule('Rules.lean left_inverse_is_inverse', 'a left inverse of a square matrix is its inverse')
        return Arr(Mt)

    def orth_nonsing(M):
        if len(M.dims[1]) != 2:
            return False
        return transpose_inverse(M) is not None
    s.c.nonsing.append(orth_nonsing)
    s.c.inv_hook = transpose_inverse
    K = s.dim('K')

    def half(it, args, kw):
        space()
        nm.trust(HALF)
        hs, pt = val(args[0]), val(args[1])
        E, f = got['E'], got['f']
        s.prove('half-spaces of the polytope', val_eq(hs, ar.concat([E, Val([E.dims[0], D(1)], lambda a, b_: -T(f.at(a)))], 1)))
        interior(pt)
        k = dsize(E.dims[1])
        Vv = Val([D(K), D(k)], lambda a, b_: Term.atom('V', a[1], b_[1]))
        got['V'] = Vv
        s.assume(ar.forall_over([D(K)], lambda a: rows_le(E, Val([D(k)], lambda b_: Term.atom('V', a[1], b_[1])), f)))
        got['K'] = K
        return Opaque('halfspaces', cell=LObj.of([Vv]))

    def interior(pt):
        E, f = got['E'], got['f']
        if eq:
            s.prove('center in the new coordinates', val_eq(pt, got['cy']))
        r = ar.elementwise(lambda u, w: Lt(u, w), ar.dot(E, pt), f, boolean=True)
        s.prove('interior point', ar.forall_over(r.dims, r.at))
    s.c.halfspace_hook = half

    def redundant(it, args, kw):
        """C09: rows of an irredundant description of the same set."""
        space()
        q = args[0]
        E, f = got['E'], got['f']
        s.prove('segment described by the rows', And(val_eq(v(q, 'A'), E), val_eq(v(q, 'b'), f), IEq(dsize(v(q, 'C').dims[0]), 0)))
        M = s.dim('M')
        e, g, w = [lambda i, nme=nme: Term.atom(nme, P(i)) for nme in ('e', 'g', 'w')]
        q.attrs['A'] = Arr(Val([D(M), D(1)], lambda a, b_: e(a[1])))
        q.attrs['b'] = Arr(Val([D(M)], lambda a: g(a[1])))
        i, j = fresh('i', M), fresh('j', M)
        viol = lambda i_: Lt(g(i_), e(i_) * w(i_))
        other = lambda i_, j_: Or(IEq(i_, j_), Le(e(j_) * w(i_), g(j_)))
        # bounded: rows of both signs
        up, dn = s.dim('up'), s.dim('dn')
        s.assume(And(ILt(up, M), ILt(dn, M), Lt(0, e(up)), Lt(e(dn), 0)))
        # the center
        cy = T(got['cy'].at((0, P(0))))
        s.assume(Forall([(i, M)], Lt(e(V(i)) * cy, g(V(i)))))
        # irredundance
        s.assume(Forall([(i, M)], viol(V(i))))
        s.assume(Forall([(i, M), (j, M)], other(V(i), V(j))))
        s.lemma('two rows', ILe(2, M))
        for i_ in (0, 1):
            s.assume(And(viol(P(i_)), other(P(i_), P(1 - i_)), Lt(e(i_) * cy, g(i_))))
            s.lemma('row is not zero', Or(Lt(0, e(i_)), Lt(e(i_), 0)))
        s.lemma('rows of opposite sign', Or(And(Lt(0, e(0)), Lt(e(1), 0)), And(Lt(e(0), 0), Lt(0, e(1)))))
        j0 = V('jj')
        NONNEG['jj'] = 0
        for i_ in (0, 1):
            s.assume(Implies(And(ILe(2, j0), ILt(j0, M)), And(viol(j0), other(j0, P(i_)), other(P(i_), j0), Lt(e(j0) * cy, g(j0)))))
        ok = s.prove('only two rows', Implies(And(ILe(2, j0), ILt(j0, M)), FALSE))
        if ok:
            s.assume(ILe(M, 2))
        # the same set, at the points of interest
        got['1d'] = True

        def same_set(z):
            t = T(z.at((0, P(0))))
            s.assume(lg.Iff(And(Le(e(0) * t, g(0)), Le(e(1) * t, g(1))), rows_le(E, z, f)))
        same_set(got['y'])
        for i_ in (0, 1):
            t = nm.reciprocal(e(i_)) * g(i_)
            same_set(Val([E.dims[1]], lambda l, t=t: t))
        return None
    s.it.contracts[POL + 'remove_redundant_inequalities'] = redundant
    r = s.get(o, 'vertices')
    s.unchanged()
    frame_obj(s, o, sn, 'polyhedron')
    nulls = [z for z in s.c.calls if z[0] == 'null']
    if not r.ok:
        if eq and nulls and r.exc == 'ValueError':
            k = nulls[0][3]
            s.prove('refused only for dependent equalities or a point', Or(IEq(k, 0), Not(IEq(k, n - p))))
        else:
            s.fail('answers', r.exc)
        return
    if r.value is None:
        s.prove('None only if unbounded or not full dimensional', Or(Not(Pred('bounded')), Pred('rnone'), Lt(rad, T(1.e-7))))
        s.prove('nothing stored', TRUE if o.attrs['_vertices'] is None else FALSE)
        return
    s.prove('no answer if unbounded or not full dimensional', And(Pred('bounded'), Not(Pred('rnone')), Lt(0, rad)))
    if 'E' not in got:
        raise Unsupported('vertices computed in another way')
    l = nm.aslist(r.value)
    E, f, y = got['E'], got['f'], got['y']
    if '1d' in got:
        if not s.prove('two vertices', IEq(P(l.length()), 2)):
            return
        vs = [val(nm.list_getitem(l, k)) for k in (0, 1)]
        pos = []
        for w in vs:
            s.prove('dimension of the vertices', IEq(dsize(w.dims[0]), n))
            z = w if not eq else ar.dot(T_(got['N']), w)
            t = T(z.at((0, P(0))))
            pos.append(t)
            s.prove('a vertex belongs to the polytope', member(o, w, sn))
        inside(s, got, sn, x, inx)
        y0 = T(y.at((0, P(0))))
        s.prove('the vertices span the polytope', Or(And(Le(pos[0], y0), Le(y0, pos[1])), And(Le(pos[1], y0), Le(y0, pos[0]))))
    else:
        if not s.prove('one vertex per intersection', IEq(P(l.length()), K)):
            return
        kk = fresh('k', K)
        w = val(nm.list_getitem(l, I(V(kk))))
        s.prove('a vertex belongs to the polytope', Forall([(kk, K)], member(o, w, sn)))
        inside(s, got, sn, x, inx)
        lam = lambda k: Term.atom('lam', k[1])
        one = nf.reduce_sum(Val([D(K)], lam), None)
        k_ = dsize(E.dims[1])
        s.assume(ar.forall_over([D(K)], lambda k: Le(0, lam(k))))
        s.assume(Eq(one, 1))
        comb = Val(y.dims, lambda j: nf.reduce_sum(Val([D(K)], lambda k: lam(k) * Term.atom('V', k[1], ar.flat(y.dims[0], j))), None))
        s.assume(ar.forall_over(y.dims, lambda j: Eq(y.at(j), comb.at(j))))
        tot = nf.reduce_sum(Val([x.dims[0], D(K)], lambda j, k: lam(k) * T(nm.at_locs(val(nm.list_getitem(l, I(k[1]))), [('idx', ar.flat(x.dims[0], j))]))), 1)
        if eq:
            rows_zero(s, 'combination in the coordinates of the equalities', got['N'], sub_(y, comb))
            s.assume(ar.forall_over(x.dims, lambda i: Eq(T(got['c0'].at(i)) * one, got['c0'].at(i))))
        s.prove('every point is a convex combination of the vertices', val_eq(x, tot))


def inside(s, got, sn, x, inx):
    """A point of the polytope, in the coordinates within the equalities."""
    A, b, C, d = sn
    s.assume(inx)
    if 'N' in got:
        df = sub_(x, got['c0'])
        s.lemma('point minus the particular solution', all_eq0(ar.dot(C, df)))
        w = ar.dot(got['N'], ar.dot(T_(got['N']), df))
        rows_zero(s, 'point within the equalities', A, sub_(df, w))
    s.lemma('point satisfies the rows', rows_le(got['E'], got['y'], got['f']))


# ------------------------------------------------------------------ convex hull of points
@scenario('C10', 'from_convex_hull', [POL + 'from_convex_hull'])
def _(s):
    """The rows of the polyhedron are the half-spaces of the hull: a x + c <= 0 for the equations (a, c)."""
    n, K, Q = s.dim('n', 2), s.dim('K', 1), s.dim('Q', 1)
    pts = s.fam(K, lambda k: Arr(Val([D(n)], lambda c: Term.atom('p', P(k), c[1]))))
    got = []

    def hull(it, args, kw):
        nm.trust(QHULL)
        if len(args) > 1 or kw:
            raise Unsupported('options of the hull')
        s.prove('hull of the points', val_eq(val(args[0]), Val([D(K), D(n)], lambda a, c: Term.atom('p', a[1], c[1]))))
        got.append(1)
        return make_hull(val(args[0]), Val([D(Q), D(n + 1)], lambda a, c: Term.atom('eq', a[1], c[1])), False, None)
    s.c.hull_hook = hull
    r = s.call(s.it.get(GEO, 'Polyhedron').lookup('from_convex_hull'), pts)
    if not r.ok:
        s.fail('polyhedron returned', r.exc)
        return
    if not got:
        raise Unsupported('hull computed in another way')
    p = r.value
    x = ghost('x', n)
    inside = ar.forall_over([D(Q)], lambda q: Le(nf.reduce_sum(Val([D(n)], lambda j: Term.atom('eq', q[1], j[1]) * T(x.at(j))), None) + Term.atom('eq', q[1], n), 0))
    s.prove('dimension', IEq(dsize(v(p, 'A').dims[1]), n))
    proves_iff(s, 'the points of the hull', member(p, x), inside)
    for c in CACHES:
        s.prove('attributes of the hull: %s' % c, TRUE if p.attrs.get(c) is None else FALSE)
