"""C01, C02, C03, C06: sets denoted by polyhedra."""
from ._lib import *


def _add(s, method, kindname):
    n = s.dim('n')
    o = polyhedron(s, '', n, caches=True, dtype='any')
    old = snap(o)
    k, k2 = s.dim('k'), s.dim('k2')
    A, b = s.arr('E', k, n), s.arr('f', k2)
    r = s.method(o, method, A, b)
    s.expect_raise(r, 'ValueError', Not(IEq(k, k2)), 'incoherent sizes')
    s.unchanged()
    x = s.arr('x', n)
    if not r.ok:
        return
    caches_clear(s, o)
    new = rows_le(A.val(), x.val(), b.val()) if kindname == 'ineq' else rows_eq(A.val(), x.val(), b.val())
    proves_iff(s, 'point belongs to the extended polyhedron', member(o, x), And(member(None, x, old), new))


@scenario('C01', 'add_inequality', [GEO + ':Polyhedron.add_inequality', GEO + ':Polyhedron._same_number_rows', GEO + ':Polyhedron._selection_matrix',
                                    GEO + ':Polyhedron._delete_attributes'])
def _(s):
    _add(s, 'add_inequality', 'ineq')


@scenario('C01', 'add_equality', [GEO + ':Polyhedron.add_equality'])
def _(s):
    _add(s, 'add_equality', 'eq')


def index_list(s, k, n, injective=False):
    """Arbitrary list of k coordinates out of n (any order, repetitions allowed unless injective)."""
    nm.reg_range('ind', lambda args: n)
    ind = lambda i: PA('ind', P(i))
    s.assume(Or(ILe(P(k), 0), ILe(1, P(n))))
    if injective:
        lg.INJ.add('ind')
        i, j = fresh('i'), fresh('j')
        s.assume(Forall([(i, k), (j, k)], Or(IEq(V(i), V(j)), Not(IEq(ind(V(i)), ind(V(j)))))))
    return s.fam(k, lambda i: ind(i)), ind


def sub(x, ind, k):
    """The chosen coordinates of x, in the order of the list."""
    return Val([D(k)], lambda l: x.val().at((0, ind(l[1]))))


def _add_ind(s, method, kind):
    n = s.dim('n', 1)
    o = polyhedron(s, '', n, caches=True, dtype='any')
    old = snap(o)
    k, k2 = s.dim('k', 1), s.dim('k2')
    lst, ind = index_list(s, k2, n)
    A, b = s.arr('E', k, k2), s.arr('f', k)
    r = s.method(o, method, A, b, lst)
    if not r.ok:
        s.fail('coherent inputs accepted', 'raises %s' % r.exc)
        return
    s.unchanged()
    caches_clear(s, o)
    x = s.arr('x', n)
    y = sub(x, ind, k2)
    new = rows_le(A.val(), y, b.val()) if kind == 'ineq' else rows_eq(A.val(), y, b.val())
    proves_iff(s, 'constraint holds for the selected coordinates in the given order', member(o, x), And(member(None, x, old), new))


@scenario('C01', 'add_inequality on selected coordinates', [GEO + ':Polyhedron.add_inequality'])
def _(s):
    _add_ind(s, 'add_inequality', 'ineq')


@scenario('C01', 'add_equality on selected coordinates', [GEO + ':Polyhedron.add_equality'])
def _(s):
    _add_ind(s, 'add_equality', 'eq')


def le_vals(a, b):
    r = ar.elementwise(lambda u, w: Le(u, w), a, b, boolean=True)
    return ar.forall_over(r.dims, r.at)


def _bounds(s, method, lo, hi, ind, scalar=False):
    n = s.dim('n', 1)
    o = polyhedron(s, '', n, caches=True, dtype='any')
    old = snap(o)
    x = s.arr('x', n)
    if ind:
        k = s.dim('k', 1) if not scalar else P(1)
        lst, f = index_list(s, k, n)
        y = sub(x, f, k)
        extra = [lst]
    else:
        k = n
        y = x.val()
        extra = []
    args, new = [], []
    for nme, want in (('lo', lo), ('hi', hi)):
        if not want:
            continue
        if scalar:
            t = s.real(nme)
            args.append(t)
            w = Val([D(1)], lambda l, t=t: t)
        else:
            a = s.arr(nme, k)
            args.append(a)
            w = a.val()
        new.append(le_vals(w, y) if nme == 'lo' else le_vals(y, w))
    r = s.method(o, method, *(args + extra))
    if not r.ok:
        s.fail('coherent bounds accepted', 'raises %s' % r.exc)
        return
    s.unchanged()
    caches_clear(s, o)
    proves_iff(s, 'point belongs exactly when it also satisfies the bounds', member(o, x), And(member(None, x, old), *new))


for _m, _lo, _hi in (('add_lower_bound', True, False), ('add_upper_bound', False, True), ('add_bounds', True, True)):
    for _ind in (False, True):
        for _sc in ((False,) if not _ind else (False, True)):
            def _f(s, m=_m, lo=_lo, hi=_hi, ind=_ind, sc=_sc):
                _bounds(s, m, lo, hi, ind, sc)
            scenario('C01', '%s%s%s' % (_m, ' on selected coordinates' if _ind else '', ' (a float)' if _sc else ''),
                     [GEO + ':Polyhedron.' + _m])(_f)


def _from_bounds(s, method, lo, hi, ind):
    n = s.dim('n', 1)
    k = s.dim('k', 1) if ind else n
    x = s.arr('x', n)
    y = x.val()
    kw = {}
    if ind:
        lst, f = index_list(s, k, n)
        y = sub(x, f, k)
        kw = {'indices': lst, 'n': n}
    args, new = [], []
    sizes = []
    for nme, want in (('lo', lo), ('hi', hi)):
        if want:
            kk = k
            if nme == 'hi' and lo:
                kk = s.dim('k3')
                sizes.append(kk)
            a = s.arr(nme, kk)
            args.append(a)
            new.append((a, nme))
    r = s.call(s.it.get(GEO, 'Polyhedron.' + method), *args, **kw)
    bad = Not(IEq(k, sizes[0])) if sizes else FALSE
    s.expect_raise(r, 'ValueError', bad, 'bounds of different size')
    s.unchanged()
    if not r.ok:
        return
    caches_clear(s, r.value)
    fs = [le_vals(a.val(), y) if nme == 'lo' else le_vals(y, a.val()) for a, nme in new]
    proves_iff(s, 'point belongs exactly when it satisfies the bounds', member(r.value, x), And(*fs))


for _m, _lo, _hi in (('from_lower_bound', True, False), ('from_upper_bound', False, True), ('from_bounds', True, True)):
    for _ind in (False, True):
        def _f(s, m=_m, lo=_lo, hi=_hi, ind=_ind):
            _from_bounds(s, m, lo, hi, ind)
        scenario('C01', _m + (' on selected coordinates' if _ind else ''), [GEO + ':Polyhedron.' + _m])(_f)


@scenario('C01', 'from_*_bound without dimension', [GEO + ':Polyhedron.from_lower_bound', GEO + ':Polyhedron.from_upper_bound',
                                                   GEO + ':Polyhedron.from_bounds'])
def _(s):
    n = s.dim('n', 1)
    k = s.dim('k', 1)
    lst, f = index_list(s, k, n)
    a, b = s.arr('lo', k), s.arr('hi', k)
    for m, args in (('from_lower_bound', [a]), ('from_upper_bound', [a]), ('from_bounds', [a, b])):
        r = s.call(s.it.get(GEO, 'Polyhedron.' + m), *args, indices=lst)
        s.expect_raise(r, 'ValueError', TRUE, m)


@scenario('C01', 'constructor', [GEO + ':Polyhedron.__init__'])
def _(s):
    n = s.dim('n')
    m, m2, p, p2 = s.dim('m'), s.dim('m2'), s.dim('p'), s.dim('p2')
    A, b, C, d = s.arr('A', m, n), s.arr('b', m2), s.arr('C', p, n), s.arr('d', p2)
    cls = s.cls(GEO, 'Polyhedron')
    x = s.arr('x', n)
    which = s.c.choose(2, 'with equalities')
    r = s.new(cls, A, b, C, d) if which else s.new(cls, A, b)
    bad = Not(IEq(m, m2))
    if which:
        bad = Or(bad, Not(IEq(p, p2)))
    s.expect_raise(r, 'ValueError', bad, 'incoherent sizes')
    s.unchanged()
    if not r.ok:
        return
    caches_clear(s, r.value)
    want = rows_le(A.val(), x.val(), b.val())
    if which:
        want = And(want, rows_eq(C.val(), x.val(), d.val()))
    proves_iff(s, 'point belongs exactly when it satisfies the constraints', member(r.value, x), want)


@scenario('C01', 'constructor refuses partial or two-dimensional data', [GEO + ':Polyhedron.__init__'])
def _(s):
    n, m, p = s.dim('n'), s.dim('m'), s.dim('p')
    cls = s.cls(GEO, 'Polyhedron')
    A, b, C, d = s.arr('A', m, n), s.arr('b', m), s.arr('C', p, n), s.arr('d', p)
    for nme, args in (('C without d', (A, b, C, None)), ('d without C', (A, b, None, d)),
                      ('two-dimensional b', (A, s.arr('b2', m, 1))), ('two-dimensional d', (A, b, C, s.arr('d2', p, 1)))):
        s.expect_raise(s.new(cls, *args), 'ValueError', TRUE, nme)


# ------------------------------------------------------------------ C02
@scenario('C02', 'contains', [GEO + ':Polyhedron.contains'])
def _(s):
    n = s.dim('n')
    o = polyhedron(s, '', n, caches=True)
    x = s.arr('x', n)
    if s.c.choose(2, 'default tolerance'):
        tol = s.real('tol')
        s.assume(Le(0, tol))
        r = s.method(o, 'contains', x, tol)
    else:
        tol = T(1.e-7)
        r = s.method(o, 'contains', x)
    if not r.ok:
        s.fail('always answers', 'raises %s' % r.exc)
        return
    s.unchanged()
    want = And(rows_le(v(o, 'A'), x.val(), v(o, 'b'), tol),
               rows_le(v(o, 'C'), x.val(), v(o, 'd'), tol),
               ar.forall_over([D(s.dim('p'))], lambda l: Le(v(o, 'd').at(l) - ar.dot(v(o, 'C'), x.val()).at(l), tol)))
    got = ip.fm(r.value)
    proves_iff(s, 'answers True exactly when every constraint holds within the tolerance', got, want)
    for k in CACHES:
        if not isinstance(o.attrs.get(k), Stale):
            s.fail('query leaves the polyhedron unchanged', k)


# ------------------------------------------------------------------ C03
@scenario('C03', 'intersection', [GEO + ':Polyhedron.intersection', GEO + ':Polyhedron.add_inequality', GEO + ':Polyhedron.add_equality'])
def _(s):
    n = s.dim('n')
    o1 = polyhedron(s, '1', n, caches=True)
    o2 = polyhedron(s, '2', n, caches=True, dtype='any') if s.c.choose(2, 'with another one') else o1
    s1, s2 = snap(o1), snap(o2)
    r = s.method(o1, 'intersection', o2)
    if not r.ok:
        s.fail('intersection defined', 'raises %s' % r.exc)
        return
    x = s.arr('x', n)
    proves_iff(s, 'point of the intersection', member(r.value, x), And(member(None, x, s1), member(None, x, s2)))
    s.unchanged()
    _operands(s, r.value, [(o1, s1), (o2, s2)])


def _operands(s, res, ops):
    for o, sn in ops:
        if res is o:
            s.fail('result is a new polyhedron', 'an operand is returned')
        frame_obj(s, o, sn, 'operand')
        for k in CACHES:
            if not isinstance(o.attrs.get(k), Stale):
                s.fail('operands keep their attributes', k)
        # no array of the result that the class later writes in place is shared with an operand
    caches_clear(s, res, 'result starts without derived attributes')


@scenario('C03', 'cartesian_product', [GEO + ':Polyhedron.cartesian_product'])
def _(s):
    n1 = s.dim('n1')
    o1 = polyhedron(s, '1', n1, caches=True)
    if s.c.choose(2, 'with another one'):
        n2 = s.dim('n2')
        o2 = polyhedron(s, '2', n2, caches=True, dtype='any')
    else:
        o2, n2 = o1, n1
    s1, s2 = snap(o1), snap(o2)
    r = s.method(o1, 'cartesian_product', o2)
    if not r.ok:
        s.fail('product defined', 'raises %s' % r.exc)
        return
    x1, x2 = s.arr('x1', n1), s.arr('x2', n2)
    x = ar.concat([x1.val(), x2.val()], 0)
    proves_iff(s, 'stacked pair in the product', member(r.value, x), And(member(None, x1, s1), member(None, x2, s2)))
    s.unchanged()
    _operands(s, r.value, [(o1, s1), (o2, s2)])


# ------------------------------------------------------------------ C06
def _normalize(s, dtype):
    n = s.dim('n')
    o = polyhedron(s, '', n, caches=True, dtype=dtype)
    old = snap(o)
    if s.c.choose(2, 'default tolerance'):
        tol = s.real('tol')
        s.assume(Le(0, tol))
        r = s.method(o, 'normalize', tol)
    else:
        tol = T(1.e-7)
        r = s.method(o, 'normalize')
    if not r.ok:
        s.fail('normalization always succeeds', 'raises %s' % r.exc)
        return
    x = s.arr('x', n)
    new = snap(o)
    for nme, A0, b0, A1, b1 in (('inequality', old[0], old[1], new[0], new[1]), ('equality', old[2], old[3], new[2], new[3])):
        m = A0.dims[0]
        s.prove(nme + ' rows kept', And(IEq(dsize(A1.dims[0]), dsize(m)), IEq(dsize(b1.dims[0]), dsize(m)), IEq(dsize(A1.dims[1]), n)))
        i = fresh('row', dsize(m))
        li = (0, V(i))
        j = fresh('h', n)
        nrm2 = ar.sum_over(D(n), lambda l: A0.at(li, l) * A0.at(li, l))
        r_ = lg.derive('sqrt', nrm2)
        big = Lt(tol, r_)
        a0, a1 = A0.at(li, (0, V(j))), A1.at(li, (0, V(j)))
        s.prove(nme + ' row above the threshold: divided by its norm', Implies(big, And(Eq(a1 * r_, a0), Eq(b1.at(li) * r_, b0.at(li)))))
        s.prove(nme + ' row above the threshold: unit norm',
                Implies(big, Eq(ar.sum_over(D(n), lambda l: A1.at(li, l) * A1.at(li, l)) * nrm2, nrm2)))
        s.prove(nme + ' row below the threshold: as it was', Implies(Not(big), And(Eq(a1, a0), Eq(b1.at(li), b0.at(li)))))
    proves_iff(s, 'same set', member(o, x), member(None, x, old))
    s.unchanged('no array of the caller is written')


@scenario('C06', 'normalize', [GEO + ':Polyhedron.normalize'])
def _(s):
    _normalize(s, 'float')


@scenario('C06', 'normalize (integer data)', [GEO + ':Polyhedron.normalize'])
def _(s):
    _normalize(s, 'int')
