"""C09: minimal facets and redundancy removal."""
from ._lib import *
from ._solvers import *
from .geometry_sets import index_list
from .geometry_queries import nonsing_by_nullspace
from vc import invloop

POL = GEO + ':Polyhedron.'
TOL = T(1.e-7)


# ------------------------------------------------------------------ _remove_equalities
@scenario(['C08', 'C09'], '_remove_equalities', [POL + '_remove_equalities'])
def _(s):
    """E = A N, f = b - A c0 where C c0 = d and N spans the nullspace of C: rows of E at N^T x are the rows of A at x."""
    n = s.dim('n', 1)
    o = polyhedron(s, '', n, p=s.dim('p', 1))
    sn = snap(o)
    A, b, C, d = sn
    x = s.arr('x', n).val()
    nullspace_contract(s)
    nonsing_by_nullspace(s)
    r = s.method(o, '_remove_equalities')
    nulls = [z for z in s.c.calls if z[0] == 'null']
    if not r.ok:
        if r.exc == 'ValueError' and nulls:
            s.prove('refused only for dependent equalities or a point', Or(IEq(nulls[0][3], 0), Not(IEq(nulls[0][3], n - s.dim('p', 1)))))
        else:
            s.fail('answers', r.exc)
        return
    s.unchanged()
    frame_obj(s, o, sn, 'polyhedron')
    E, f, N, R = [val(z) for z in r.value]
    if len(nulls) < 2 or not s.c.inverses:
        raise Unsupported('equalities removed in an unknown way')
    c0 = ar.dot(nulls[1][2], ar.dot(s.c.inverses[-1][1], d))
    s.prove('c0 solves the equalities', rows_eq(C, c0, d))
    s.prove('E = A N', val_eq(E, ar.dot(A, N)))
    s.prove('f = b - A c0', val_eq(f, sub_(b, ar.dot(A, c0))))
    s.prove('C N = 0', all_eq0(ar.dot(C, N)))
    s.prove('N^T c0 = 0', all_eq0(ar.dot(T_(N), c0)))
    NN = ar.dot(T_(N), N)
    s.prove('N^T N = I', val_eq(NN, Val(NN.dims, lambda a, b_: Term.delta(ar.flat(NN.dims[0], a) - ar.flat(NN.dims[1], b_)))))
    s.assume(rows_eq(C, x, d))
    df = sub_(x, c0)
    null_clause(s, nulls[0], df)
    s.lemma('difference in the nullspace', all_eq0(ar.dot(C, df)))
    w = ar.dot(N, ar.dot(T_(N), x))
    s.prove('x = c0 + N N^T x', all_eq0(sub_(df, w)))


def remove_equalities_contract(s, points=()):
    """Contract proved above; the last clause instantiated at the ghost points (of the original space)."""
    def h(it, args, kw):
        o = args[0]
        A, b, C, d = snap(o)
        name, ix = it.fresh_name('req')
        if s.c.branch(Pred(name, *ix)):
            raise PyRaise('ValueError')
        n = dsize(C.dims[1])
        k = nm.PA(name + '.k', *ix) if ix else V(name + '.k')
        if ix:
            raise Unsupported('equalities removed in a loop')
        NONNEG[name + '.k'] = 1
        s.assume(IEq(k, n - dsize(C.dims[0])))
        N = Val([C.dims[1], D(k)], lambda a, b_: Term.atom(name + '.N', *(ar.loc_leaves(a) + [b_[1]])))
        R = Val([C.dims[1], D(n - k)], lambda a, b_: Term.atom(name + '.R', *(ar.loc_leaves(a) + [b_[1]])))
        c0 = Val([C.dims[1]], lambda a: Term.atom(name + '.c', *ar.loc_leaves(a)))
        c = s.c
        pf = lambda fs: sum(10 for f in fs if f.name == name + '.N') + len(fs)
        nf.add_zero_matrix(c, ar.dot(C, N), pf, 'C N')
        e1 = ar.dot(T_(N), N)
        nf.add_zero_matrix(c, Val([D(k), D(k)], lambda a, b_: T(e1.at(a, b_)) - Term.delta(a[1] - b_[1])), lambda fs: len(fs), 'N orthonormal')
        s.assume(rows_eq(C, c0, d))
        nc = ar.dot(T_(N), c0)
        s.assume(all_eq0(nc))
        call = ('req', o, N, c0, k)
        s.c.calls.append(call)
        for g in points:
            x = g(C.dims[1])
            if x is not None:
                reached(s, call, C, d, x)
        return (Arr(ar.dot(A, N)), Arr(sub_(b, ar.dot(A, c0))), Arr(N), Arr(R))
    s.it.contracts[POL + '_remove_equalities'] = h


def reached(s, call, C, d, x):
    """C x = d implies x = c0 + N N^T x."""
    _, o, N, c0, k = call
    w = ar.dot(N, ar.dot(T_(N), x))
    s.assume(Implies(rows_eq(C, x, d), ar.forall_over(x.dims, lambda l: Eq(x.at(l), c0.at(l) + w.at(l)))))


# ------------------------------------------------------------------ minimal_facets
class Survivors(object):
    """Invariant of the loop: the list is the selection {k : k >= i or keep(k)}; a point z satisfies the selected rows only if it
    satisfies all; for every kept k < i there is a point w_k that violates row k and satisfies the other selected rows."""

    def __init__(self, s, E, f, z, theta, m):
        self.s, self.E, self.f, self.z, self.m = s, E, f, z, m
        self.name = None
        self.i = None
        self.seen = None
        self.lpx = None
        self.exit = False

    def row(self, k, x, slack=0):
        return Le(ar.dot(self.E, x).at((0, P(k))), T(self.f.at((0, P(k)))) + slack)

    def cond(self, i, k):
        return Or(ILe(P(i), P(k)), Pred('keep', P(k)))

    def enough(self, i, x):
        """The selected rows imply all rows, at the point x."""
        k = fresh('k')
        sel = Forall([(k, self.m)], Implies(self.cond(i, V(k)), self.row(V(k), x)))
        k2 = fresh('k')
        return Implies(sel, Forall([(k2, self.m)], self.row(V(k2), x)))

    def enter(self, frame):
        names = [n for n, x in frame.env.items() if isinstance(x, LObj)]
        if len(names) != 1:
            raise Unsupported('surviving facets are not held in one list')
        self.name = names[0]
        self.keep = {self.name}
        l = frame.env[self.name]
        f = nf.selection(l)
        if f is None:
            raise Unsupported('surviving facets are not held in a list of indices')
        n, var, cond = f
        k = fresh('k', self.m)
        self.s.prove('initially every facet is in the list', And(IEq(n, self.m), cond.subst({var: V(k)})))

    def objs(self, frame):
        return [frame.env[self.name]]

    def havoc(self, frame, i):
        s = self.s
        var = fresh('v', self.m)
        self.exit = i == P(self.m)
        cond = Pred('keep', V(var)) if self.exit else self.cond(i, V(var))
        frame.setname(self.name, LObj(nm.filter_fam(self.m, var, cond, lambda p: I(p))))
        s.assume(self.enough(i, self.z))
        self.i = i
        if not self.exit:
            self.flat(i)

    def preserve(self, frame, i):
        s = self.s
        f = nf.selection(frame.env[self.name])
        if f is None:
            raise Unsupported('surviving facets are not held in a list of indices')
        n, var, cond = f
        now = cond.subst({var: i})
        kept = s.c.truth(now)
        if kept is None:
            kept = s.branch(now)
        k = fresh('k', self.m)
        want = Or(ILe(i + 1, V(k)), And(ILt(V(k), i), Pred('keep', V(k))), And(IEq(V(k), i), TRUE if kept else FALSE))
        proves_iff(s, 'the list loses at most the current facet', cond.subst({var: V(k)}), want)
        s.prove('facets numbered below the total', IEq(n, self.m))
        s.assume(Pred('keep', i) if kept else Not(Pred('keep', i)))
        if kept:
            if self.lpx is None:
                s.fail('a kept facet is needed', 'no point computed')
                return
            w = self.lpx
            s.prove('kept facet: violated by the point found', Lt(T(self.f.at((0, i))), ar.dot(self.E, w).at((0, i))))
            s.prove('kept facet: the point satisfies the other rows of the list',
                    Implies(And(self.cond(i, V(k)), Not(IEq(V(k), i))), self.row(V(k), w)))
        else:
            s.prove('dropped facet: implied by the remaining rows', self.enough(i + 1, self.z))


@scenario('C09', 'minimal_facets', [POL + 'minimal_facets'], timeout=12000)
def _(s):
    n, m = s.dim('n', 1), s.dim('m')
    eq = s.c.choose(2, 'equalities')
    p = s.dim('p', 1) if eq else P(0)
    o = polyhedron(s, '', n, m=m, p=p)
    sn = snap(o)
    A, b, C, d = sn
    x = s.arr('x', n).val()
    wit = []
    empty_contract(s, [point(s, 'x')])
    if eq:
        remove_equalities_contract(s, [point(s, 'x')])
    spec = [None]
    st = {}

    def setup():
        """Once the loop starts: space of the programs, a point of the polyhedron, the ghost point and the segment between them."""
        req = [q for q in s.c.calls if q[0] == 'req']
        emp = [q for q in s.c.calls if q[0] == 'empty']
        if not emp or emp[-1][2]:
            s.fail('loop only for non-empty polyhedra', 'emptiness not excluded')
            raise PathDone()
        w = emp[-1][3]
        if eq:
            if not req:
                raise Unsupported('equalities not removed')
            N, c0 = req[-1][2], req[-1][3]
            E, f = ar.dot(A, N), sub_(b, ar.dot(A, c0))
            y = ar.dot(T_(N), w)
            reached(s, req[-1], C, d, w)
            rows_zero(s, 'point of the polyhedron in the nullspace coordinates', A, sub_(sub_(w, c0), ar.dot(N, y)))
            z = Val([N.dims[1]], lambda l: Term.atom('z', l[1]))
        else:
            E, f, y = A, b, w
            z = Val([D(n)], lambda l: Term.atom('z', l[1]))
        s.lemma('a point satisfies all rows', all_le(ar.dot(E, y), f))
        st.update(E=E, f=f, y=y, z=z)
        return E, f, y, z

    def seg(dx):
        """Point of the segment between y and z: just beyond row i if z violates it (lemma below)."""
        sp = spec[0]
        if sp is None or sp.i is None:
            return None
        E, f, y, z = st['E'], st['f'], st['y'], st['z']
        if ar.dkey(dx) != ar.dkey(z.dims[0]):
            return None
        i = sp.i
        th = Term.atom('theta', i)
        q = ar.elementwise(lambda u, w_: u + th * (w_ - u), y, z)
        Ez, Ey, Eq_ = [ar.dot(E, t_) for t_ in (z, y, q)]
        li = (0, i)
        s.assume(And(Le(0, th), Le(th, 1)))
        s.assume(Implies(And(Lt(f.at(li), Ez.at(li)), Le(Ey.at(li), f.at(li))), And(Lt(f.at(li), Eq_.at(li)), Le(Eq_.at(li), f.at(li) + 1))))
        # a row satisfied at both ends is satisfied on the segment (products of nonnegative numbers)
        k = fresh('k')
        lk = (0, V(k))
        s.assume(Forall([(k, m)], Implies(And(Le(Ez.at(lk), f.at(lk)), Le(Ey.at(lk), f.at(lk))), Le(Eq_.at(lk), f.at(lk)))))
        return q

    def on_point(px):
        """The separation hypothesis at the optimum of the program of iteration i."""
        if spec[0] is not None:
            spec[0].lpx = px
            over = T(ar.dot(st['E'], px).at((0, spec[0].i))) - st['f'].at((0, spec[0].i))
            s.assume(Or(Le(over, 0), Lt(TOL, over)))

    def feas(A_, b_, C_, d_, px, ray, plain):
        """The rows of the program are those of the list, row i relaxed by one (proved for an arbitrary point)."""
        sp = spec[0]
        if sp is None or C_ is not None:
            return plain(A_, b_, C_, d_, px)

        def rows(t_):
            k = fresh('k')
            return Forall([(k, m)], Implies(sp.cond(sp.i, V(k)), sp.row(V(k), t_, slack=indicator(IEq(V(k), sp.i))) if not ray else
                                            Le(ar.dot(st['E'], t_).at((0, V(k))), 0)))
        key = ('rows', ray)
        if key not in st:
            u = Val(px.dims, lambda l: Term.atom(fresh_u, ar.flat(px.dims[0], l)))
            mine, theirs = rows(u), plain(A_, b_, C_, d_, u)
            st[key] = s.c.check(Implies(mine, theirs), 12000)[0] and s.c.check(Implies(theirs, mine), 12000)[0]
        return rows(px) if st[key] else plain(A_, b_, C_, d_, px)
    fresh_u = 'u'
    lp_contract(s, [lambda dx: st.get('y'), seg], on_point=on_point, feas=feas)

    def loop(frame, stmt, iterable):
        if eq and not [q for q in s.c.calls if q[0] == 'req']:
            raise Unsupported('loop before the equalities are removed')
        E, f, y, z = setup()
        l = as_list(iterable)
        bind = invloop.in_order(l)
        if bind is None or not s.c.truth(IEq(P(l.length()), m)):
            raise Unsupported('loop that does not run over all facets')
        spec[0] = Survivors(s, E, f, z, None, m)
        # well-separated data: the excess of a row over the others is not strictly between 0 and the tolerance, and the part of
        # a row along the affine space is zero or above the tolerance (tolerances treated as exact)
        nm.trust('tolerance 1e-7 of minimal_facets treated as exact: no row exceeds the others by an amount strictly between 0 and it')
        nm.trust('tolerance 1e-7 of minimal_facets treated as exact: a row constant on the affine space up to it is constant')

        def flat(i):
            ei = Val([E.dims[1]], lambda l: E.at((0, i), l))
            ai = Val([A.dims[1]], lambda l: A.at((0, i), l))
            s.assume(Implies(Le(norm(s, ei), TOL * norm(s, ai)), And(Eq(ar.dot(E, z).at((0, i)), 0), Eq(ar.dot(E, y).at((0, i)), 0))))
        spec[0].flat = flat
        return invloop.for_loop(s, frame, stmt, m, bind, spec[0])
    s.it.loop_contracts[(POL + 'minimal_facets', 'for')] = loop
    r = s.method(o, 'minimal_facets')
    if not r.ok:
        if r.exc == 'ValueError' and eq and not [q for q in s.c.calls if q[0] == 'req']:
            s.prove('refused only for dependent equalities', TRUE)
            return
        s.fail('always answers', r.exc)
        return
    s.unchanged()
    frame_obj(s, o, sn, 'polyhedron')
    if r.value is None:
        s.prove('None only if empty', Not(member(None, x, sn)))
        return
    res = nf.selection(r.value) if isinstance(r.value, LObj) else None
    if res is None:
        raise Unsupported('result is not a list of indices')
    if spec[0] is None:
        raise Unsupported('facets not found by a loop')
    sp = spec[0]
    k = fresh('k', m)
    proves_iff(s, 'returns the surviving facets', res[2].subst({res[1]: V(k)}), Pred('keep', V(k)))
    s.prove('returned indices are those of the rows', IEq(res[0], m))
    # same set: a point that satisfies the equalities and the kept rows satisfies all rows (instance z = N^T x of the invariant)
    E, f = st['E'], st['f']
    s.assume(rows_eq(C, x, d))
    if eq:
        q = [g for g in s.c.calls if g[0] == 'req'][-1]
        N, c0 = q[2], q[3]
        zx = ar.dot(T_(N), x)
        reached(s, q, C, d, x)
        rows_zero(s, 'the point in the nullspace coordinates', A, sub_(sub_(x, c0), ar.dot(N, zx)))
        s.lemma('rows at the point', val_eq(sub_(ar.dot(E, zx), f), sub_(ar.dot(A, x), b)))
    else:
        zx = x
    s.assume(sp.enough(m, zx))
    k2 = fresh('k')
    lk = lambda k_: (0, k_)
    s.prove('the kept rows define the same set', Implies(Forall([(k2, m)], Implies(Pred('keep', V(k2)), Le(ar.dot(A, x).at(lk(V(k2))),
                                                                                                        b.at(lk(V(k2)))))), all_le(ar.dot(A, x), b)))
    # not redundant: the point found at iteration k
    wk = Val(E.dims[1:], lambda l: Term.atom('wit', ar.flat(E.dims[1], l)))
    l2 = fresh('l')
    s.assume(Pred('keep', V(k)))
    s.assume(Lt(f.at(lk(V(k))), ar.dot(E, wk).at(lk(V(k)))))
    s.assume(Forall([(l2, m)], Implies(And(Pred('keep', V(l2)), Not(IEq(V(l2), V(k)))), sp.row(V(l2), wk))))
    if eq:
        xk = ar.elementwise(lambda u, w_: u + w_, c0, ar.dot(N, wk))
        s.prove('a point violating only row k: satisfies the equalities', rows_eq(C, xk, d))
    else:
        xk = wk
    s.lemma('rows at the violating point', val_eq(sub_(ar.dot(E, wk), f), sub_(ar.dot(A, xk), b)))
    s.prove('a point violating only row k: violates it', Lt(b.at(lk(V(k))), ar.dot(A, xk).at(lk(V(k)))))
    l3 = fresh('l', m)
    s.prove('a point violating only row k: satisfies the other kept rows',
            Implies(And(Pred('keep', V(l3)), Not(IEq(V(l3), V(k)))), Le(ar.dot(A, xk).at(lk(V(l3))), b.at(lk(V(l3))))))


def facets_contract(s, points=()):
    """minimal_facets: None only if empty; otherwise the indices `keep` of rows that, with the equalities, define the same set."""
    def h(it, args, kw):
        o = args[0]
        A, b, C, d = snap(o)
        m = dsize(A.dims[0])
        name, ix = it.fresh_name('mf')
        if ix or nf._multi(A.dims[0]):
            raise Unsupported('minimal facets in a loop')
        if s.c.branch(Pred(name + '.e')):
            for g in points:
                g = g(A.dims[1])
                s.assume(Not(feasible(A, b, C, d, g)))
            s.c.calls.append(('facets', o, None, None))
            return None
        wit, _ = nf.fresh_vec(it, 'wit', A.dims[1])
        s.assume(feasible(A, b, C, d, wit))
        var = fresh('v', m)
        l = LObj(nm.filter_fam(m, var, Pred(name, V(var)), lambda p_: I(p_)))
        for g in points:
            g = g(A.dims[1])
            k = fresh('k')
            ok = Forall([(k, m)], Implies(Pred(name, V(k)), Le(ar.dot(A, g).at((0, V(k))), b.at((0, V(k))))))
            s.assume(Implies(And(rows_eq(C, g, d), ok), all_le(ar.dot(A, g), b)))
        s.c.calls.append(('facets', o, l, wit))
        return l
    s.it.contracts[POL + 'minimal_facets'] = h


@scenario('C09', 'remove_redundant_inequalities', [POL + 'remove_redundant_inequalities'])
def _(s):
    n, m = s.dim('n', 1), s.dim('m')
    o = polyhedron(s, '', n, m=m)
    sn = snap(o)
    x = s.arr('x', n).val()
    facets_contract(s, [point(s, 'x')])
    r = s.method(o, 'remove_redundant_inequalities')
    fc = [q for q in s.c.calls if q[0] == 'facets']
    if not r.ok:
        if r.exc != 'ValueError':
            s.fail('removal', r.exc)
        elif not fc or fc[-1][2] is not None:
            s.fail('refused only for empty polyhedra', 'no emptiness established')
        else:
            s.prove('refused only for empty polyhedra', Not(member(None, x, sn)))
        for k, w in zip('AbCd', sn):
            s.prove('refused: %s unchanged' % k, val_eq(w, v(o, k)))
        return
    s.unchanged()
    if not fc:
        raise Unsupported('facets found in an unknown way')
    if fc[-1][2] is None:
        s.fail('empty polyhedra are refused', 'not refused')
        return
    s.prove('equalities unchanged', And(val_eq(sn[2], v(o, 'C')), val_eq(sn[3], v(o, 'd'))))
    proves_iff(s, 'same set', member(o, x), member(None, x, sn))
    sel = fc[-1][2]
    cnt, _, phi = sel.segs[0][1:4]
    var = sel.segs[0][2]
    A2, b2 = v(o, 'A'), v(o, 'b')
    s.prove('as many rows as minimal facets', And(IEq(dsize(A2.dims[0]), P(cnt)), IEq(dsize(b2.dims[0]), P(cnt))))
    j, l = fresh('j', P(cnt)), fresh('l', n)
    p_ = P(phi).subst({var: V(j)})
    s.prove('rows are those of the minimal facets', Implies(And(IEq(dsize(A2.dims[0]), P(cnt)), IEq(dsize(b2.dims[0]), P(cnt))), And(
        Eq(A2.at((0, V(j)), (0, V(l))), sn[0].at((0, p_), (0, V(l)))), Eq(b2.at((0, V(j))), sn[1].at((0, p_))))))


def norm(s, x):
    return nm.FN['numpy.linalg.norm'](s.it, [Arr(x)], {})


@scenario('C09', 'lemma: a segment crosses a violated row', [POL + 'minimal_facets'])
def _(s):
    """From a value a <= f to a value c > f there is a fraction in [0, 1] whose value is in (f, f + 1]."""
    a, c, f, th = [s.real(k) for k in ('a', 'c', 'f', 'th')]
    s.assume(Le(a, f))
    s.assume(Lt(f, c))
    if s.c.choose(2, 'far'):
        s.assume(Lt(f + 1, c))
        s.assume(Eq(th * (c - a), f + 1 - a))
    else:
        s.assume(Le(c, f + 1))
        s.assume(Eq(th, 1))
    s.prove('fraction between 0 and 1', And(Le(0, th), Le(th, 1)))
    s.prove('beyond the row', Lt(f, a + th * (c - a)))
    s.prove('by at most one', Le(a + th * (c - a), f + 1))


@scenario('C09', 'lemma: halfspaces are convex', [POL + 'minimal_facets'])
def _(s):
    a, c, f, th = [s.real(k) for k in ('a', 'c', 'f', 'th')]
    s.assume(And(Le(a, f), Le(c, f), Le(0, th), Le(th, 1)))
    s.prove('rows satisfied at both ends hold in between', Le(a + th * (c - a), f))
