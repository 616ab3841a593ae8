"""C23: linear-algebra helpers."""
from ._lib import *
from .dynamics import addv, item, sc
from vc import invloop


def svd_hook(s, seen):
    """svd(M) (trusted): the rows of V^T are orthonormal; those from the rank on are mapped to zero, and a vector mapped to zero is
    orthogonal to the others (clause instantiated at the ghost vector).  With full matrices V^T is square and orthogonal."""
    def svd(it, a, k):
        full = a[1] if len(a) > 1 else k.get('full_matrices', True)
        M = val(a[0])
        nm.trust('numpy.linalg.svd: V orthogonal, M v_k = 0 exactly for the columns from the rank on; matrix_rank is the number of the others')
        m, n = dsize(M.dims[0]), dsize(M.dims[1])
        r = rank_of(M)
        if not isinstance(full, bool):
            raise Unsupported('svd option')
        if full:
            rest = n - r
        else:
            q = V('svd.k')
            NONNEG['svd.k'] = 0
            s.assume(And(ILe(q, m), ILe(q, n), Or(IEq(q, m), IEq(q, n)), ILe(r, q)))
            rest = q - r
        segs = [S(z) for z in (r, rest) if P(z) != P(0)]
        rows = tuple(segs) if segs else (S(0),)
        blk = (lambda l: (r if l[0] == 1 else P(0)) + l[1]) if len(segs) == 2 else (lambda l: l[1])
        Vt = Val([rows, M.dims[1]], lambda a_, b_: Term.atom('Vt' if True else '', P((0 if P(r) == P(0) or a_[0] == 1 else 1)), a_[1], b_[1]))
        seen.append((M, Vt, r, rest))
        facts(M, Vt, r, rest, full)
        return (Opaque('U'), Opaque('singular values'), Arr(Vt))

    def facts(M, Vt, r, rest, full):
        c = s.c
        first = lambda: Val([D(r), M.dims[1]], lambda a, b: Term.atom('Vt', P(1), a[1], b[1]))
        second = Val([D(rest), M.dims[1]], lambda a, b: Term.atom('Vt', P(0), a[1], b[1]))
        eye = lambda v_: Val(v_.dims, lambda a, b: T(v_.at(a, b)) - Term.delta(ar.flat(v_.dims[0], a) - ar.flat(v_.dims[1], b)))
        pf = lambda fs: len(fs)
        nf.add_zero_matrix(c, eye(ar.dot(second, T_(second))), pf, 'orthonormal')
        nf.add_zero_matrix(c, ar.dot(M, T_(second)), lambda fs: sum(10 for f in fs if f.name == 'Vt') + len(fs), 'nullspace')
        if P(r) != P(0):
            nf.add_zero_matrix(c, eye(ar.dot(first(), T_(first()))), pf, 'orthonormal')
            nf.add_zero_matrix(c, ar.dot(first(), T_(second)), pf, 'orthogonal')
        z = Val([M.dims[1]], lambda l: Term.atom('z', ar.flat(M.dims[1], l)))
        zero = all_eq0(ar.dot(M, z))
        if P(r) != P(0):
            s.assume(Implies(zero, all_eq0(ar.dot(first(), z))))
        if full:
            # completeness: z = V V^T z
            w = ar.dot(T_(second), ar.dot(second, z))
            if P(r) != P(0):
                w1 = ar.dot(T_(first()), ar.dot(first(), z))
                s.assume(ar.forall_over(z.dims, lambda l: Eq(z.at(l), w1.at(l) + w.at(l))))
                s.assume(Implies(all_eq0(ar.dot(first(), z)), all_eq0(w1)))
            else:
                s.assume(ar.forall_over(z.dims, lambda l: Eq(z.at(l), w.at(l))))

    def rank_of(M):
        for q in seen:
            if nf.same_matrix(q[0], M):
                return q[2]
        for q in s.c.calls:
            if q[0] == 'rank' and nf.same_matrix(q[1], M):
                return q[2]
        m, n = dsize(M.dims[0]), dsize(M.dims[1])
        if m == P(0):
            r = P(0)
        else:
            nme = fresh('rk')
            NONNEG[nme] = 0
            r = V(nme)
            s.assume(And(ILe(r, m), ILe(r, n)))
        s.c.calls.append(('rank', M, r))
        return r
    s.c.svd_hook = svd
    s.c.rank_hook = lambda it, M: I(rank_of(M))


@scenario('C23', 'nullspace_basis', [GUT + ':nullspace_basis'])
def _(s):
    n = s.dim('n', 1)
    m = s.dim('m', 1) if s.c.choose(2, 'rows') else P(0)
    A = s.arr('A', m, n)
    seen = []
    svd_hook(s, seen)
    r = s.call(s.it.get(GUT, 'nullspace_basis'), A)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    Z, Av = val(r.value), A.val()
    s.prove('rows', IEq(dsize(Z.dims[0]), n))
    s.prove('mapped to zero', all_eq0(ar.dot(Av, Z)))
    ZZ = ar.dot(T_(Z), Z)
    s.prove('orthonormal', val_eq(ZZ, Val(ZZ.dims, lambda a, b: Term.delta(ar.flat(ZZ.dims[0], a) - ar.flat(ZZ.dims[1], b)))))
    z = s.arr('z', n).val()
    s.assume(all_eq0(ar.dot(Av, z)))
    w = ar.dot(Z, ar.dot(T_(Z), z))
    s.prove('spans every vector mapped to zero', ar.forall_over(z.dims, lambda l: Eq(z.at(l), w.at(l))))


@scenario('C23', 'plane_through_points', [GUT + ':plane_through_points'])
def _(s):
    n = s.dim('n', 1)
    pts = s.arr('p', n, n)
    pv = pts.val()
    s.c.rand_hook = lambda it, a, k: Arr(Val([D(P(a[0]))], lambda l: Term.atom('rand', l[1])))
    nm.trust('numpy.random.rand: any vector; points in general position (the shifted points are linearly independent)')
    s.c.nonsing.append(lambda w: True)
    r = s.call(s.it.get(GUT, 'plane_through_points'), s.fam(n, lambda k: Arr(Val([D(n)], lambda l: pv.at((0, P(k)), l)))))
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    for q in [z for z in s.c.calls if z[0] == 'solve']:
        # the solution of P a = 1 is not zero (squares of real numbers)
        x = q[3]
        sq = ar.dot(x, x)
        s.assume(And(Le(0, sq), Implies(Eq(sq, 0), all_eq0(x))))
        Px = ar.dot(q[1], x)
        s.assume(Implies(all_eq0(x), ar.forall_over(Px.dims, lambda l: Eq(Px.at(l), 0))))
        s.c.hints.append(P(0))
        s.lemma('normal is not zero', Lt(0, sq))
    a, d = val(r.value[0]), T(nm.num(r.value[1]))
    k = V(fresh('k', n))
    row = Val([D(n)], lambda l: pv.at((0, k), l))
    s.prove('unit normal', Eq(ar.dot(a, a), 1))
    s.prove('nonnegative offset', Le(0, d))
    s.prove('every point is on the plane', Eq(ar.dot(a, row), d))


# ------------------------------------------------------------------ comparison of rows
def exact_allclose(s):
    def h(it, a, k):
        nm.trust('numpy.allclose treated as exact equality')
        r = wrap(ar.elementwise(lambda x, y: Eq(x, y), val(a[0]), val(a[1]), boolean=True, dtype='bool'))
        return nm.FN['numpy.all'](it, [r], {})
    s.c.allclose_hook = h


class Remaining(object):
    """Invariant at iteration i: the remaining array has m - i rows, and for every vector g the number of its rows equal to g plus
    the number of the first i rows of A equal to g is the number of rows of B equal to g (ghost vector g, counts as terms)."""

    def __init__(self, s, c):
        self.s, self.c = s, c
        self.i = None
        self.done = False

    def start(self, frame, st, iterable):
        out = invloop.assigned(st.body)
        arrs = [k for k in out if k in frame.env and isinstance(frame.env[k], Arr)]
        oth = [k for k in out if k in frame.env and not isinstance(frame.env[k], Arr)]
        if len(arrs) != 1 or oth:
            raise Unsupported('state of the loop not recognised')
        self.B = arrs[0]
        self.keep = {self.B}
        if isinstance(iterable, Arr):
            self.A0 = val(iterable)
            self.bind = lambda i: Arr(self.rowA(i))
        else:
            used = {x.id for q in [st.iter] + st.body for x in ip.ast.walk(q) if isinstance(x, ip.ast.Name)}
            oth = [k for k, x in frame.env.items() if isinstance(x, Arr) and x.ndim == 2 and k != self.B and k in used]
            self.bind = invloop.in_order(as_list(iterable))
            if len(oth) != 1 or self.bind is None:
                raise Unsupported('rows compared not recognised')
            self.A0 = val(frame.env[oth[0]])
            if self.s.c.truth(IEq(P(as_list(iterable).length()), dsize(self.A0.dims[0]))) is not True:
                raise Unsupported('loop that does not run over all rows')
        self.B0 = val(frame.env[self.B])
        self.m = dsize(self.A0.dims[0])

    def rowA(self, k):
        return Val([D(self.c)], lambda l: nm.at_locs(self.A0, [('idx', P(k)), ('idx', l[1])]))

    def isg(self, row):
        return ar.forall_over([D(self.c)], lambda l: Eq(row.at(l), Term.atom('g', l[1])))

    def enter(self, frame):
        s = self.s
        s.prove('initially: as many rows', IEq(dsize(self.B0.dims[0]), self.m))
        # count of the remaining rows = count of B: the remaining array is B
        s.prove('initially: nothing removed', val_eq(val(frame.env[self.B]), self.B0))

    def objs(self, frame):
        return []

    def rem(self, r):
        return Val([D(self.c)], lambda l: Term.atom('Brem', P(r), l[1]))

    def havoc(self, frame, i):
        s = self.s
        self.i = P(i)
        n = self.m - P(i)
        self.n = n
        frame.setname(self.B, Arr(Val([D(n), D(self.c)], lambda a, b: Term.atom('Brem', a[1], b[1]))))
        self.cA, self.cB, self.cB0 = Term.atom('cA', P(i)), Term.atom('cB', P(i)), Term.atom('cB0')
        s.assume(Eq(self.cA + self.cB, self.cB0))
        # counting: no row, count zero
        nm.rule('Rules.lean count_remove counts_permutation', 'counting of equal rows under removal; equal counts are a permutation')
        s.assume(Le(0, self.cB))
        if n == P(0):
            s.assume(Eq(self.cB, 0))
        self.done = n == P(0)

    def preserve(self, frame, i):
        s = self.s
        B = val(frame.env[self.B])
        segs = B.dims[0]
        if B.ndim != 2 or len(segs) != 2 or any(x.r for x in segs):
            raise Unsupported('remaining rows after an iteration')
        j = segs[0].n
        r = fresh('r')
        s.prove('one row is removed', And(ILe(0, j), ILt(j, self.n), IEq(dsize(segs), self.n - 1)))
        at = lambda k, q: Val([D(self.c)], lambda l: B.at((k, P(q)), ('?',) if False else (0, l[1])))
        a, b = fresh('r', j), fresh('r', segs[1].n)
        s.prove('rows before it are kept', Forall([(a, j)], val_eq(at(0, V(a)), self.rem(V(a)))))
        s.prove('rows after it are kept', Forall([(b, segs[1].n)], val_eq(at(1, V(b)), self.rem(j + 1 + V(b)))))
        s.lemma('the row removed is equal to the current row', val_eq(self.rem(j), self.rowA(i)))
        # counting: removing row j lowers the count by [row j = g]; row i of A raises it by [row i = g]
        new = self.cB - indicator(self.isg(self.rem(j)))
        newA = self.cA + indicator(self.isg(self.rowA(i)))
        if s.branch(self.isg(self.rowA(i))):
            s.lemma('then the removed row is that vector too', self.isg(self.rem(j)))
            new, newA = self.cB - 1, self.cA + 1
        else:
            s.lemma('then the removed row is not that vector either', Not(self.isg(self.rem(j))))
            new, newA = self.cB, self.cA
        s.prove('preserved: counts', Eq(new + newA, self.cB0))


@scenario('C23', 'same_rows', [GUT + ':same_rows'])
def _(s):
    m, m2, c = s.dim('m'), s.dim('m2'), s.dim('c', 1)
    A, B = s.arr('A', m, c), s.arr('B', m2, c)
    norm = bool(s.c.choose(2, 'normalize'))
    exact_allclose(s)
    sp = Remaining(s, c)
    Q = GUT + ':same_rows'
    rows = []

    def loop(frame, st, iterable):
        sp.start(frame, st, iterable)
        for V0, A0, nme in ((A.val(), sp.A0, 'first'), (B.val(), sp.B0, 'second')):
            k = V(fresh('k', dsize(V0.dims[0])))
            get = lambda M, l: nm.at_locs(M, [('idx', k), ('idx', l)])
            if not norm:
                s.prove('rows of the %s array as given' % nme, val_eq(V0, A0))
            else:
                t = sq_sum(Val([D(c)], lambda l: get(V0, l[1])))
                nrm = nm.FN['numpy.linalg.norm'](s.it, [Arr(Val([D(c)], lambda l: get(V0, l[1])))], {})
                s.prove('rows of the %s array divided by their norms' % nme,
                        Implies(Lt(0, nrm), ar.forall_over([D(c)], lambda l: Eq(T(get(A0, l[1])) * nrm, get(V0, l[1])))))
        return invloop.for_loop(s, frame, st, sp.m, sp.bind, sp)
    s.it.loop_contracts[(Q, 'for')] = loop
    r = s.call(s.it.get(GUT, 'same_rows'), A, B, norm)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    if sp.i is None:
        if r.value is False:
            s.prove('False without comparison only for different numbers of rows', Not(IEq(m, m2)))
        else:
            s.fail('compares the rows', 'answers True without comparing')
        return
    if r.value is True:
        if not sp.done:
            s.fail('all rows compared before True', 'early answer')
        else:
            s.prove('True: every vector occurs as often in both', And(IEq(m, m2), Eq(Term.atom('cA', sp.m), sp.cB0)))
    elif r.value is False:
        if sp.done:
            s.fail('False only if a row has no partner', 'after all rows were matched')
        else:
            k = V(fresh('k', sp.n))
            s.prove('False only if a row has no partner left', Not(val_eq(sp.rem(k), sp.rowA(sp.i))))
    else:
        s.fail('answer', 'not a truth value')


@scenario('C23', 'lemma: a row without a partner', [GUT + ':same_rows'])
def _(s):
    """No remaining row equals row i (count zero at g = row i): the counts of that vector differ."""
    i, m, ai, bi = [s.real(k) for k in ('countA_before', 'countA', 'rem', 'countB')]
    s.assume(And(Eq(i + ai, bi), Eq(ai, 0), Le(i + 1, m)))
    s.prove('the collections differ', Not(Eq(m, bi)))


@scenario('C23', 'same_vectors', [GUT + ':same_vectors'])
def _(s):
    m, m2, c = s.dim('m', 1), s.dim('m2', 1), s.dim('c', 1)
    A, B = s.arr('A', m, c), s.arr('B', m2, c)
    two = s.c.choose(3, 'dimensions')
    seen = []

    def h(it, args, kw):
        seen.append((val(args[0]), val(args[1]), args[2] if len(args) > 2 else kw.get('normalize', True)))
        return ip.B(Pred('same'))
    s.it.contracts[GUT + ':same_rows'] = h

    def fam(X, n, mat):
        vec = lambda k: Arr(Val([D(c)], lambda l: X.val().at((0, P(k)), l)))
        col = lambda k: Arr(Val([D(c), D(1)], lambda l, q: X.val().at((0, P(k)), l)))
        return s.fam(n, col if mat else vec)
    r = s.call(s.it.get(GUT, 'same_vectors'), fam(A, m, two == 1), fam(B, m2, two == 2))
    s.unchanged()
    s.expect_raise(r, 'ValueError', TRUE if two else FALSE, 'matrices')
    if not r.ok:
        return
    if len(seen) != 1:
        raise Unsupported('not compared by same_rows')
    for got, X, n, nme in ((seen[0][0], A, m, 'first'), (seen[0][1], B, m2, 'second')):
        s.prove('compares the %s vectors' % nme, And(
            IEq(dsize(got.dims[0]), P(n)), IEq(dsize(got.dims[1]), P(c)),
            ar.forall_over(got.dims, lambda i, l: Eq(got.at(i, l), X.val().at((0, ar.flat(got.dims[0], i)), (0, ar.flat(got.dims[1], l)))))))
    s.prove('without normalization', TRUE if seen[0][2] is False else FALSE)
    f = ip.fm(r.value) if not isinstance(r.value, bool) else (TRUE if r.value else FALSE)
    proves_iff(s, 'the answer is that of the rows', f, Pred('same'))


# ------------------------------------------------------------------ linearly_independent_rows
@scenario('C23', 'linearly_independent_rows', [GUT + ':linearly_independent_rows'])
def _(s):
    """A combination of the returned rows (or of rows up to the returned row l) that is zero has weight zero at the last one; by
    induction from the last to the first all the weights are zero."""
    k, e = s.dim('k', 1), s.dim('e')
    m, n = (k, k + e) if s.c.choose(2, 'shape') else (k + e, k)
    A = s.arr('A', m, n)
    tol = s.real('tol')
    s.assume(Le(0, tol))
    got = {}

    def qr(it, a, kw):
        M = val(a[0])
        if len(a) > 1 or kw:
            raise Unsupported('mode of the factorization')
        if got:
            raise Unsupported('several factorizations')
        nm.trust('numpy.linalg.qr: M = Q R, Q with orthonormal columns, R upper triangular')
        s.prove('columns of the factorized matrix are the rows', val_eq(M, T_(A.val())))
        Q = Val([D(n), D(k)], lambda a_, b_: Term.atom('Q', a_[1], b_[1]))
        R_ = Val([D(k), D(m)], lambda a_, b_: Term.atom('R', a_[1], b_[1]))
        i, j = fresh('i', k), fresh('j', m)
        s.assume(Forall([(i, k), (j, m)], Or(ILe(V(i), V(j)), Eq(Term.atom('R', V(i), V(j)), 0))))
        got.update(Q=Q, R=R_)
        return (Arr(Q), Arr(R_))
    s.c.qr_hook = qr
    r = s.call(s.it.get(GUT, 'linearly_independent_rows'), A, tol)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    if not got:
        raise Unsupported('no factorization')
    l = nm.aslist(r.value)
    L = P(l.length())
    i0 = V('i0')
    NONNEG['i0'] = 0
    d0 = Term.atom('R', i0, i0)
    mk = s.c.mark()
    s.assume(ILt(i0, k))
    s.prove('every row with a diagonal element above the threshold', Implies(Or(Lt(tol, d0), Lt(tol, -d0)), in_list(s, i0, l)))
    s.c.rollback(mk)
    q = V('q')
    NONNEG['q'] = 0
    s.assume(ILt(q, L))
    x = P(nm.list_getitem(l, I(q)))
    s.prove('indices of rows', And(ILe(0, x), ILt(x, m)))
    q2 = V('q2')
    NONNEG['q2'] = 0
    mk = s.c.mark()
    s.assume(ILt(q2, q))
    s.prove('increasing, hence each row once', ILt(P(nm.list_getitem(l, I(q2))), x))
    s.c.rollback(mk)
    c = Val([D(m)], lambda a: Term.atom('c', a[1]))
    j = fresh('j', m)
    s.assume(Forall([(j, m)], Or(ILe(V(j), x), Eq(Term.atom('c', V(j)), 0))))
    # A^T c = Q R c = 0
    Q, R_ = got['Q'], got['R']
    Rc = ar.dot(R_, c)
    s.assume(all_eq0(ar.dot(Q, Rc)))
    e1 = ar.dot(T_(Q), Q)
    nf.add_zero_matrix(s.c, Val([D(k), D(k)], lambda a, b: T(e1.at(a, b)) - Term.delta(a[1] - b[1])), lambda fs: len(fs), 'orthonormal')
    rows_zero(s, 'combination is zero', T_(Q), ar.dot(Q, Rc))
    s.prove('row of the triangular factor', ILt(x, k))
    if not s.c.truth(ILt(x, k)):
        return
    s.lemma('triangular combination is zero', Eq(Rc.at((0, x)), 0))
    dl = lambda a: Term.delta(a[1] - x) * Term.atom('R', x, x) * Term.atom('c', x)
    z = Val([D(m)], lambda a: Term.atom('R', x, a[1]) * Term.atom('c', a[1]) - dl(a))
    weighted_zero(s, 'only the last term', z, Val([D(m)], lambda a: T(1)))
    s.prove('weight of the last row is zero', Eq(Term.atom('c', x), 0))
