"""C05: derived attributes are those of the current constraints.

Class invariant of Polyhedron: each of _empty, _bounded, _radius, _center, _vertices is None or the answer for the current A, b,
C, d.  Every operation is verified to establish or preserve it: operations that change the set clear the attributes, operations
that keep the set (normalize, remove_redundant_inequalities: C06, C09) may keep them, queries only store the answer they give
(answers: C07, C08, C10), results of set operations start without attributes, other polyhedra are not touched."""
import ast
from ._lib import *
from ._solvers import *
from .geometry_sets import index_list
from .parametric import normalize_contract

POL = GEO + ':Polyhedron.'


def cached(s, t, n, **kw):
    """A polyhedron whose derived attributes have all been asked for."""
    o = polyhedron(s, t, n, **kw)
    o.attrs['_empty'] = ip.B(Pred('cempty' + t))
    o.attrs['_bounded'] = ip.B(Pred('cbounded' + t))
    o.attrs['_radius'] = s.real('cradius' + t)
    o.attrs['_center'] = s.arr('ccenter' + t, n)
    o.attrs['_vertices'] = Stale('_vertices', None)
    return o, {k: o.attrs[k] for k in CACHES}


def some_known(s, *objs):
    """All the derived attributes are known, or all but one, or only one."""
    i = s.c.choose(1 + 2 * len(CACHES), 'known attributes')
    for j, k in enumerate(CACHES):
        if i > 0 and (j == (i - 1) % len(CACHES)) != (i > len(CACHES)):
            for o, orig in objs:
                o.attrs[k] = orig[k] = None


def same(a, b):
    """Formula: two attribute values are the same answer."""
    if a is b:
        return TRUE
    if a is None or b is None:
        return FALSE
    if isinstance(a, Arr) and isinstance(b, Arr):
        return val_eq(a.val(), b.val())
    if isinstance(a, (Stale, Opaque)) or isinstance(b, (Stale, Opaque)):
        return FALSE
    if ip.is_bool(a) and ip.is_bool(b):
        return Iff(ip.fm(a), ip.fm(b))
    if ip.is_num(a) and ip.is_num(b):
        return Eq(T(a), T(b))
    if isinstance(a, LObj) and isinstance(b, LObj):
        return list_eq(a, b)
    return FALSE


def only(s, o, k, allowed, name):
    """The attribute is None or one of the allowed answers."""
    x = o.attrs.get(k, None)
    s.prove('%s: %s' % (name, k), TRUE if x is None else Or(*[same(x, y) for y in allowed]))


def stays(s, o, orig, name, but=()):
    for k in CACHES:
        if k not in but:
            only(s, o, k, [orig[k]], name)


def _add(method, ind):
    @scenario('C05', method + ' clears the derived attributes' + (' (selected coordinates)' if ind else ''), [POL + method, POL + '_delete_attributes'])
    def _(s):
        n = s.dim('n', 1)
        o, orig = cached(s, '', n)
        some_known(s, (o, orig))
        k = s.dim('k')
        extra, kk = [], n
        if ind:
            kk = s.dim('k2', 1)
            extra = [index_list(s, kk, n)[0]]
        if method in ('add_inequality', 'add_equality'):
            args = [s.arr('E', k, kk), s.arr('f', k)]
        elif method == 'add_bounds':
            args = [s.arr('lo', kk), s.arr('hi', kk)]
        else:
            args = [s.arr('lo', kk)]
        r = s.method(o, method, *(args + extra))
        if not r.ok:
            s.fail('accepted', r.exc)
            return
        for c_ in CACHES:
            x = o.attrs.get(c_)
            s.prove('derived attributes cleared: ' + c_, TRUE if x is None else And(IEq(k if 'equality' in method else kk, 0), same(x, orig[c_])))


for _m in ('add_inequality', 'add_equality', 'add_lower_bound', 'add_upper_bound', 'add_bounds'):
    for _i in (False, True):
        _add(_m, _i)


@scenario('C05', 'refused additions leave the polyhedron as it was', [POL + 'add_inequality', POL + 'add_equality'])
def _(s):
    n, k, k2 = s.dim('n', 1), s.dim('k'), s.dim('k2')
    o, orig = cached(s, '', n)
    sn = snap(o)
    s.assume(Not(IEq(k, k2)))
    r = s.method(o, ('add_inequality', 'add_equality')[s.c.choose(2, 'kind')], s.arr('E', k, n), s.arr('f', k2))
    if r.ok:
        s.fail('refused', 'accepted')
    frame_obj(s, o, sn, 'polyhedron')
    stays(s, o, orig, 'attributes of the unchanged polyhedron')


@scenario('C05', 'normalize keeps the set, attributes stay or go', [POL + 'normalize'])
def _(s):
    n = s.dim('n', 1)
    o, orig = cached(s, '', n)
    some_known(s, (o, orig))
    r = s.method(o, 'normalize')
    if not r.ok:
        s.fail('accepted', r.exc)
        return
    stays(s, o, orig, 'attributes')


def facets_contract(s, n):
    """minimal_facets (C09): None, or a list of distinct rows."""
    def h(it, args, kw):
        name, ix = it.fresh_name('facets')
        if s.c.branch(Pred(name, *ix)):
            return None
        k = s.dim(name + '.n')
        return index_list(s, k, dsize(v(args[0], 'A').dims[0]), injective=True)[0]
    s.it.contracts[POL + 'minimal_facets'] = h


@scenario('C05', 'remove_redundant_inequalities keeps the set, attributes stay or go', [POL + 'remove_redundant_inequalities'])
def _(s):
    n = s.dim('n', 1)
    o, orig = cached(s, '', n)
    some_known(s, (o, orig))
    facets_contract(s, n)
    s.method(o, 'remove_redundant_inequalities')
    stays(s, o, orig, 'attributes')


@scenario('C05', 'intersection inherits nothing', [POL + 'intersection'])
def _(s):
    n = s.dim('n', 1)
    (o1, c1), (o2, c2) = cached(s, '1', n), cached(s, '2', n)
    some_known(s, (o1, c1), (o2, c2))
    r = s.method(o1, 'intersection', o2)
    if not r.ok:
        s.fail('defined', r.exc)
        return
    caches_clear(s, r.value, 'result without derived attributes')
    stays(s, o1, c1, 'first operand')
    stays(s, o2, c2, 'second operand')


@scenario('C05', 'cartesian_product inherits nothing', [POL + 'cartesian_product'])
def _(s):
    n1, n2 = s.dim('n1', 1), s.dim('n2', 1)
    (o1, c1), (o2, c2) = cached(s, '1', n1), cached(s, '2', n2)
    some_known(s, (o1, c1), (o2, c2))
    r = s.method(o1, 'cartesian_product', o2)
    if not r.ok:
        s.fail('defined', r.exc)
        return
    caches_clear(s, r.value, 'result without derived attributes')
    stays(s, o1, c1, 'first operand')
    stays(s, o2, c2, 'second operand')


@scenario('C05', 'constructors start without derived attributes', [POL + '__init__', POL + 'from_bounds', POL + 'from_lower_bound', POL + 'from_upper_bound'])
def _(s):
    n, m, p = s.dim('n', 1), s.dim('m'), s.dim('p')
    w = s.c.choose(5, 'constructor')
    f = lambda nme: s.it.get(GEO, 'Polyhedron.' + nme)
    r = [lambda: s.new(s.cls(GEO, 'Polyhedron'), s.arr('A', m, n), s.arr('b', m)),
         lambda: s.new(s.cls(GEO, 'Polyhedron'), s.arr('A', m, n), s.arr('b', m), s.arr('C', p, n), s.arr('d', p)),
         lambda: s.call(f('from_bounds'), s.arr('lo', n), s.arr('hi', n)),
         lambda: s.call(f('from_lower_bound'), s.arr('lo', n)), lambda: s.call(f('from_upper_bound'), s.arr('lo', n))][w]()
    if not r.ok:
        s.fail('accepted', r.exc)
        return
    caches_clear(s, r.value, 'no derived attributes')


# ------------------------------------------------------------------ queries
def fresh_query(s, filled):
    """A polyhedron with the given attributes already asked for (valid answers), the others not yet."""
    n = s.dim('n', 1)
    o, orig = cached(s, '', n)
    for k in CACHES:
        if k not in filled:
            o.set(k, None)
            orig[k] = None
    return n, o, orig


def after(s, o, orig, sn, k, answer, name):
    frame_obj(s, o, sn, 'constraints')
    only(s, o, k, [answer], 'stores only the answer')
    stays(s, o, orig, 'other attributes', but=(k,))


@scenario('C05', 'query empty', [POL + 'empty'])
def _(s):
    n, o, orig = fresh_query(s, () if s.c.choose(2, 'attributes') else ('_bounded', '_radius', '_center', '_vertices'))
    sn = snap(o)
    qp_contract(s)
    lp_contract(s)
    r = s.get(o, 'empty')
    if r.ok:
        after(s, o, orig, sn, '_empty', r.value, 'empty')
        again = s.get(o, 'empty')
        s.prove('answer kept', same(o.attrs['_empty'], again.value) if o.attrs['_empty'] is not None else TRUE)


@scenario('C05', 'query bounded', [POL + 'bounded'])
def _(s):
    n, o, orig = fresh_query(s, () if s.c.choose(2, 'attributes') else ('_empty', '_radius', '_center', '_vertices'))
    sn = snap(o)
    qp_contract(s)
    lp_contract(s)
    empty_contract(s)
    nullspace_contract(s)
    r = s.get(o, 'bounded')
    if r.ok:
        after(s, o, orig, sn, '_bounded', r.value, 'bounded')
    else:
        s.fail('always answers', r.exc)


def chebyshev_contract(s):
    """_chebyshev (C08): radius and center, or None for both; nothing is written."""
    def h(it, args, kw):
        name, ix = it.fresh_name('cheb')
        if s.c.branch(Pred(name, *ix)):
            x = (None, None)
        else:
            x = (Term.atom(name + '.r', *ix), Arr(nf.fresh_vec(it, name + '.c', v(args[0], 'A').dims[1])[0]))
        s.c.calls.append(('cheb', args[0], x))
        return x
    s.it.contracts[POL + '_chebyshev'] = h


def _rc(which):
    @scenario(['C05', 'C08'], 'query ' + which, [POL + which])
    def _(s):
        known = s.c.choose(3, 'attributes')
        n, o, orig = fresh_query(s, ((), ('_empty', '_bounded', '_vertices'), ('_vertices',))[known])
        sn = snap(o)
        chebyshev_contract(s)
        r = s.get(o, which)
        if not r.ok:
            s.fail('always answers', r.exc)
            return
        ch = [z[2] for z in s.c.calls if z[0] == 'cheb']
        k = ('radius', 'center').index(which)
        if not ch:
            if known == 2 and r.value is None:
                s.fail('a set with vertices has a radius and a center', 'None')     # vertices exist: neither empty nor unbounded
                return
            raise Unsupported('not computed by _chebyshev')
        frame_obj(s, o, sn, 'constraints')
        s.prove('answers with its own computation', Or(*[same(r.value, x[k]) for x in ch]))
        only(s, o, '_radius', [x[0] for x in ch], 'stores only the answer')
        only(s, o, '_center', [x[1] for x in ch], 'stores only the answer')
        stays(s, o, orig, 'other attributes', but=('_radius', '_center'))


_rc('radius')
_rc('center')


@scenario('C05', 'answers are repeated', [POL + q for q in ('empty', 'bounded', 'radius', 'center', 'vertices')])
def _(s):
    """With the attribute known, the query returns it (by the invariant it is the answer)."""
    n = s.dim('n', 1)
    o, orig = cached(s, '', n)
    sn = snap(o)
    for q in ('empty', 'bounded', 'radius', 'center', 'vertices'):
        r = s.get(o, q)
        if not r.ok:
            s.fail('always answers', r.exc)
            return
        s.prove('repeats the known answer: ' + q, same(r.value, orig['_' + q]))
    frame_obj(s, o, sn, 'constraints')
    stays(s, o, orig, 'attributes')


COVERED = {'add_inequality', 'add_equality', 'normalize', 'remove_redundant_inequalities', '__init__'}


@scenario('C05', 'no other method writes the constraints', [POL + '__init__'])
def _(s):
    """Every method of the class that stores into A, b, C, d (or an element of them) is one of those verified above."""
    cls = s.cls(GEO, 'Polyhedron')
    bad = []
    for f in cls.node.body:
        if not isinstance(f, ast.FunctionDef) or f.name in COVERED:
            continue
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and x.attr in 'AbCd' and isinstance(x.ctx, (ast.Store, ast.Del)):
                bad.append(f.name)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Attribute) and x.value.attr in 'AbCd':
                bad.append(f.name)
    if bad:
        raise Unsupported('other methods write the constraints: ' + ', '.join(sorted(set(bad))))
    s.prove('only the verified methods write the constraints', TRUE)
