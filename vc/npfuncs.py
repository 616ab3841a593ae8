"""Builtins and numpy / scipy functions."""
from fractions import Fraction
from .npmodel import *           # noqa: F401,F403
from .npmodel import (FN, METH, OPAQUE, ext, meth, num, val, wrap, stack_list, lead, fam_parts, aslist, clip0, view,
                      arr_getitem, arr_setitem, where_list, trust, SStr, Poison, reciprocal, list_getitem, store, nonzero)
from .npmodel import reverse as reverse_segs
from .interp import drop_head
from . import npmodel as nm
from .term import F


# ------------------------------------------------------------------ builtins
@ext('len')
def _len(it, a, k):
    x = a[0]
    if isinstance(x, (LObj, RangeObj, SetObj)):
        return aslist(x).length()
    if isinstance(x, tuple):
        return len(x)
    if isinstance(x, DObj):
        return len(x.d)
    if isinstance(x, str):
        return len(x)
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise PyRaise('TypeError')
        return I(dsize(x.dims[0]))
    if isinstance(x, Opaque) and hasattr(x, 'length'):
        return x.length
    if x is None or is_num(x):
        raise PyRaise('TypeError')
    raise Unsupported('len of %s' % type(x).__name__)


@ext('range', 'six.moves.range', 'xrange')
def _range(it, a, k):
    if any(not is_int(x) for x in a):
        raise PyRaise('TypeError')
    if len(a) == 1:
        return RangeObj(0, a[0])
    if len(a) == 2:
        return RangeObj(a[0], a[1])
    if not isinstance(a[2], int):
        raise Unsupported('symbolic step')
    return RangeObj(a[0], a[1], a[2])


@ext('enumerate')
def _enumerate(it, a, k):
    l = aslist(a[0])
    st = P(a[1] if len(a) > 1 else k.get('start', 0))
    out = []
    base = st
    for s in l.segs:
        if s[0] == 'one':
            out.append(('one', (I(base), s[1])))
            base = base + 1
        else:
            out.append(('fam', s[1], s[2], (I(base + V(s[2])), s[3])))
            base = base + s[1]
    return LObj(out)


@ext('zip')
def _zip(it, a, k):
    return nm.zip_lists(a)


@ext('list', 'tuple')
def _list(it, a, k):
    if not a:
        return LObj([])
    l = aslist(a[0])
    return LObj(l.segs)


FN['tuple'] = lambda it, a, k: tuple(aslist(a[0]).items()) if a and aslist(a[0]).concrete() else (() if not a else _list(it, a, k))


@ext('dict')
def _dict(it, a, k):
    d = {}
    if a:
        if isinstance(a[0], DObj):
            d.update(a[0].d)
        else:
            for x in aslist(a[0]).items():
                kk, v = x if isinstance(x, tuple) else x.items()
                d[Frame.key(kk)] = v
    d.update(k)
    return DObj(d)


@ext('dict.fromkeys')
def _fromkeys(it, a, k):
    return DObj({Frame.key(x): (a[1] if len(a) > 1 else None) for x in aslist(a[0]).items()})


@ext('set', 'frozenset')
def _set(it, a, k):
    return SetObj(LObj(aslist(a[0]).segs) if a else LObj([]))


@ext('sorted')
def _sorted(it, a, k):
    l = aslist(a[0])
    if k.get('key') is not None or k.get('reverse'):
        raise Unsupported('sorted with key')
    if l.concrete() and all(isinstance(x, int) for x in l.items()):
        return LObj.of(sorted(l.items()))
    if is_increasing(l):
        return LObj(l.segs)
    return permuted(l, 'sorted')


def is_increasing(l):
    """Increasing integer list (recognised: filters and ranges)."""
    c = ctx()
    last = None
    for s in l.segs:
        if s[0] == 'one':
            if not is_int(s[1]):
                return False
            lo = hi = P(s[1])
        else:
            g = P(s[3]) if is_int(s[3]) else None
            if g is None:
                return False
            cf = g.linear_in(s[2])
            if cf == 1:
                lo, hi = g.subst({s[2]: P(0)}), g.subst({s[2]: P(s[1]) - 1})
            else:
                # base + phi(k) for an increasing phi
                ok = {f[0] + '.i': f[1] for f in getattr(c, 'filters', [])}
                ap = [m[0] for m, x in g.t.items() if x == 1 and len(m) == 1 and isinstance(m[0], App)
                      and m[0].args[-1] == V(s[2]) and (m[0].name in ok or m[0].name in getattr(c, 'monotone', set()))]
                if len(ap) != 1:
                    return False
                base = g - Poly({(ap[0],): 1})
                if s[2] in base.vars() or any(s[2] in x.vars() for x in ap[0].args[:-1]):
                    return False
                if ap[0].name in ok:
                    lo, hi = base, base + ok[ap[0].name] - 1
                elif len(l.segs) == 1:
                    return True
                else:
                    return False
        if last is not None and c.int_nonneg(lo - last - 1) is not True:
            return False
        last = hi
    return True


def permuted(l, what):
    """A list with the same elements in another (unspecified) order."""
    if l.concrete() and len(l.segs) <= 1:
        return LObj(l.segs)
    if len(l.segs) == 1 and is_int(l.segs[0][3]):
        _, n, v, g = l.segs[0]
        c = ctx()
        name, ix = c.interp.fresh_name('perm')
        if not ix:
            n = P(n)
            pi, ip_ = (lambda k_: PA(name + '.i', P(k_))), (lambda k_: PA(name + '.p', P(k_)))
            nm.reg_range(name + '.i', lambda a: n)
            nm.reg_range(name + '.p', lambda a: n)
            lg.INJ.add(name + '.i')
            k, k2 = fresh('k', n), fresh('k', n)
            c.assume(Forall([(k, n)], And(lg.IEq(pi(ip_(V(k))), V(k)), lg.IEq(ip_(pi(V(k))), V(k)))))
            new = lambda k_: P(g).subst({v: pi(k_)})
            if what == 'sorted':
                c.assume(Forall([(k, n), (k2, n)], lg.Or(lg.ILe(V(k2), V(k)), lg.ILe(new(V(k)), new(V(k2))))))
            nv = fresh('l', n)
            return LObj([('fam', I(n), nv, I(new(V(nv))))])
    raise Unsupported('%s of an unordered list' % what)


@ext('reversed')
def _reversed(it, a, k):
    return LObj(reverse_segs(aslist(a[0]).segs))


@ext('sum', 'numpy.sum', 'numpy.add.reduce')
def _sum(it, a, k):
    x = a[0]
    axis = k.get('axis', a[1] if len(a) > 1 and not isinstance(x, LObj) else None)
    start = 0
    if isinstance(x, Arr):
        return reduce_sum(x.val(), axis)
    if 'axis' in k:
        return reduce_sum(val(x), axis)
    if isinstance(x, Opaque) and x.kind == 'flatlist':
        segs = []
        for s in x.rows.segs:
            if s[0] != 'fam':
                raise Unsupported('sum of a nested list')
            segs.append((s[0], s[1], s[2], _sum(it, [s[3]], {})))
        x = LObj(segs)
    l = aslist(x)
    if len(a) > 1:
        start = a[1]
    r = start
    for s in l.segs:
        if s[0] == 'one':
            r = it.ext.binop(it, 'Add', r, s[1])
        else:
            r = it.ext.binop(it, 'Add', r, fam_sum(it, s))
    return r


def unfilter(s):
    """A sum over the elements kept by a condition is the sum over all elements, the others counted as zero."""
    _, n, v, g = s
    c = ctx()
    for name, n0, var, cond, m, phi, psi in getattr(c, 'filters', []):
        m = P(m)
        ap = m.single() if m.single() is not None else None
        nn = P(n).single()
        if isinstance(ap, str):
            if nn != ap:
                continue
            mp = {}
        else:
            if not (isinstance(nn, App) and isinstance(ap, App) and nn.name == ap.name):
                continue
            mp = {x.single(): y for x, y in zip(ap.args, nn.args) if isinstance(x.single(), str)}
            if len(mp) != len(ap.args):
                continue
        size = P(n0).subst(mp)
        i = fresh('l', size)
        w = replace_index(g, phi(V(v)).subst(mp), V(i))
        if v in loops_free(w):
            return s
        return ('fam', I(size), i, indicator(cond.subst(dict(mp)).subst({var: V(i)})) * w, cond.subst(dict(mp)).subst({var: V(i)}), w)
    return s


def loops_free(t):
    from .loops import free_syms
    return free_syms(t)


def replace_index(t, old, new):
    """Replace an application of an index function by another index in a term."""
    app = old.single()

    def rp(p):
        r = P(0)
        for m, c in P(p).t.items():
            x = P(c)
            for f in m:
                if isinstance(f, str):
                    x = x * V(f)
                elif f == app:
                    x = x * new
                else:
                    x = x * Poly({(App(f.name, [rp(q) for q in f.args]),): 1})
            r = r + x
        return r
    parts = []
    for mo, c in T(t).m.values():
        b, f = mo.rename_apart()
        parts.append(((tuple((v, rp(s)) for v, s in b), tuple(tm.F(g.name, [rp(q) for q in g.idx], g.pw) for g in f)), c))
    return Term.make(parts)


def fam_sum(it, s):
    _, n, v, g = s
    if is_num(g) and not is_int(g):
        u = unfilter(s)
        if len(u) > 4:
            _, n, v, g, cond, w = u
            if ctx().check(Forall([(v, P(n))], Or(cond, Eq(w, 0))))[0]:
                g = w
            return T(g).sum(v, n)
    if isinstance(g, Fm):
        g = indicator(g)
    if is_int(g):
        p = P(g)
        if v not in p.vars():
            return I(P(n) * p)
        if p.is_const():
            return I(P(n) * p)
        name = 'psum:' + p.subst({v: V('%')}).key
        if ctx().int_nonneg(p) is True:
            reg_psum(name, lambda i: p.subst({v: P(i)}))
        n, extra = P(n), P(0)
        k = n.const() if not n.is_const() else 0
        if 0 < k <= 4 and ctx().int_nonneg(n - k) is True:
            # the last terms by themselves
            for q in range(k):
                extra = extra + p.subst({v: n - 1 - q})
            n = n - k
        return I(nm.PA(name, n) + extra)
    if is_num(g):
        return T(g).sum(v, n)
    if isinstance(g, Arr):
        gv = g.val()

        def fn(*ls):
            return ar.fam_at(gv, v, V(v), list(ls)).sum(v, n) if False else _famsum(gv, v, n, ls)
        if any(v in _dvars(d) for d in gv.dims):
            raise Unsupported('sum of arrays of different shape')
        return Arr(Val(gv.dims, fn, gv.dtype))
    if isinstance(g, Opaque) and 'famsum' in OPAQUE.get(g.kind, {}):
        return OPAQUE[g.kind]['famsum'](it, s)
    raise Unsupported('sum of a family of %s' % type(g).__name__)


def reg_psum(name, size=None):
    """Sums of nonnegative integers over prefixes."""
    if size is not None:
        ctx().psums[name] = size

    def facts(z, app, y):
        out = [y >= 0]
        if size is not None:
            seen = z.__dict__.setdefault('psum_apps', {}).setdefault(name, [])
            a = app.args[0]
            for b, w in seen:
                for (p1, y1), (p2, y2) in (((a, y), (b, w)), ((b, w), (a, y))):
                    za, zb = z.poly(p1, {}), z.poly(p2, {})
                    out.append(lg.z3.Implies(lg.z3.And(za >= 0, za < zb), y1 + z.poly(size(p1), {}) <= y2))
            seen.append((a, y))
        return out
    if name not in lg.APP_RANGE or size is not None:
        lg.APP_RANGE[name] = facts


def _dvars(d):
    s = set()
    for x in d:
        if x.r:
            s |= x.c.vars() | (_dvars(x.d) - {x.v})
        else:
            s |= x.n.vars()
    return s


def _famsum(gv, v, n, ls):
    h = fresh('h', n)
    t = ar.fam_at(gv, v, V(h), list(ls))
    return T(t).sum(h, n)


def reduce_sum(v, axis):
    count = None
    if v.boolean:
        w = count = v
        v = Val(w.dims, lambda *l: indicator(w.at(*l)), 'any')
    if axis is None:
        def go(ds, locs):
            if not ds:
                return T(v.at(*locs))
            return ar.sum_over(ds[0], lambda l: go(ds[1:], locs + [l]))
        r = go(list(v.dims), [])
        if count is not None and not r.is_const():
            # number of true entries: zero exactly when there is none
            none = ar.forall_over(count.dims, lambda *l: Not(count.at(*l)))
            ctx().assume(And(Le(0, r), Or(And(Eq(r, 0), none), And(Le(1, r), Not(none)))))
        return r
    if axis < 0:
        axis += v.ndim
    dims = [d for k, d in enumerate(v.dims) if k != axis]

    def fn(*ls):
        def at(l):
            x = list(ls)
            x.insert(axis, l)
            return v.at(*x)
        return ar.sum_over(v.dims[axis], at)
    return wrap(Val(dims, fn, v.dtype))


@ext('abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs')
def _abs(it, a, k):
    x = a[0]
    if is_int(x) and isinstance(x, int):
        return abs(x)
    if is_num(x):
        return derive('abs', num(x)) if not num(x).is_const() else T(abs(num(x).constval()))
    if isinstance(x, Opaque):
        raise Unsupported('abs of %s' % x.kind)
    v = val(x)
    return wrap(Val(v.dims, lambda *l: absterm(v.at(*l)), v.dtype))


def absterm(t):
    t = T(t)
    if t.is_const():
        return T(abs(t.constval()))
    return derive('abs', t)


@ext('numpy.sign')
def _sign(it, a, k):
    x = a[0]
    if is_num(x):
        return derive('sign', num(x))
    v = val(x)
    return wrap(Val(v.dims, lambda *l: derive('sign', v.at(*l)), 'float'))


@ext('numpy.sqrt')
def _sqrt(it, a, k):
    if is_num(a[0]):
        return derive('sqrt', num(a[0]))
    v = val(a[0])
    return wrap(Val(v.dims, lambda *l: derive('sqrt', v.at(*l)), 'float'))


@ext('numpy.square')
def _square(it, a, k):
    if is_num(a[0]):
        return num(a[0]) * num(a[0])
    v = val(a[0])
    return wrap(Val(v.dims, lambda *l: T(v.at(*l)) * T(v.at(*l)), v.dtype))


@ext('float', 'numpy.float64')
def _float(it, a, k):
    return num(a[0])


@ext('int')
def _int(it, a, k):
    if is_int(a[0]):
        return a[0]
    raise Unsupported('int()')


@ext('bool', 'numpy.bool_')
def _bool(it, a, k):
    if is_bool(a[0]):
        return a[0]
    return it.ext.truth(it, a[0])


@ext('str', 'repr')
def _str(it, a, k):
    if not a:
        return ''
    x = a[0]
    if isinstance(x, str):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return str(x)
    if isinstance(x, Poly):
        return SStr([x])
    return Str()


@ext('print', 'sys.stdout.flush')
def _print(it, a, k):
    a[:], k.keys()
    return None


EXT_CLASSES = {'float', 'int', 'list', 'tuple', 'dict', 'set', 'str', 'bool', 'numpy.ndarray', 'range'}


@ext('isinstance')
def _isinstance(it, a, k):
    x, c = a
    cs = list(c) if isinstance(c, tuple) else [c]
    out = False
    for y in cs:
        y = resolve(y)
        if isinstance(y, Cls):
            if isinstance(x, Obj):
                z = [x.cls]
                while z:
                    q = z.pop()
                    if q is y:
                        return True
                    z += [b for b in q.bases if isinstance(b, Cls)]
            continue
        if isinstance(y, Ext):
            n = y.name.replace('builtins.', '')
            t = {'float': isinstance(x, (Term, float, Fraction)), 'int': is_int(x), 'list': isinstance(x, LObj) and not getattr(x, 'np', False),
                 'tuple': isinstance(x, tuple), 'dict': isinstance(x, DObj), 'set': isinstance(x, SetObj), 'str': isinstance(x, (str, Str, SStr)),
                 'bool': is_bool(x), 'numpy.ndarray': isinstance(x, Arr), 'range': isinstance(x, RangeObj), 'numpy.float64': isinstance(x, Term),
                 'numpy.integer': False, 'numpy.floating': isinstance(x, Term), 'numbers.Number': is_num(x),
                 'numbers.Real': is_num(x), 'numpy.generic': False}
            if n not in t:
                raise Unsupported('isinstance %s' % n)
            if t[n]:
                return True
            continue
        raise Unsupported('isinstance')
    return out


@ext('hasattr')
def _hasattr(it, a, k):
    if isinstance(a[0], Obj):
        if a[1] in a[0].attrs or a[0].cls.lookup(a[1]) is not None:
            return True
        try:
            nm.missing_field(a[0], a[1])
            return True
        except PyRaise:
            return False
    raise Unsupported('hasattr')


@ext('getattr')
def _getattr(it, a, k):
    try:
        return it.ext.getattr(it, a[0], a[1])
    except PyRaise:
        if len(a) > 2:
            return a[2]
        raise


@ext('setattr')
def _setattr(it, a, k):
    if isinstance(a[0], Obj) and isinstance(a[1], str) and not a[0].frozen:
        a[0].set(a[1], a[2])
        return None
    raise Unsupported('setattr')


@ext('any', 'all')
def _anyall(it, a, k):
    raise AssertionError


def bool_list(it, x):
    """Formulas of a list: (list of formulas, quantified)"""
    l = aslist(x)
    out = []
    for s in l.segs:
        g = s[1] if s[0] == 'one' else s[3]
        if not is_bool(g):
            if is_int(g):
                g = Not(IEq(g, 0))
            elif is_num(g):
                g = Not(Eq(num(g), 0))
            elif g is None:
                g = False
            elif isinstance(g, (Obj,)):
                g = True
            else:
                raise Unsupported('truth of list elements %s' % type(g).__name__)
        out.append((s, fm(g)))
    return out


def q_all(it, x):
    return B(And(*[g if s[0] == 'one' else Forall([(s[2], s[1])], g) for s, g in bool_list(it, x)]))


def q_any(it, x):
    return B(Or(*[g if s[0] == 'one' else Exists([(s[2], s[1])], g) for s, g in bool_list(it, x)]))


FN['all'] = lambda it, a, k: np_all(it, a, k) if isinstance(a[0], Arr) else q_all(it, a[0])
FN['any'] = lambda it, a, k: np_any(it, a, k) if isinstance(a[0], Arr) else q_any(it, a[0])


def boolval(v):
    if v.boolean:
        return v
    return Val(v.dims, lambda *l: Not(Eq(v.at(*l), 0)), 'bool', True)


def axis_of(a, k):
    ax = k.get('axis', a[1] if len(a) > 1 else None)
    if len(a) > 2 or not (ax is None or isinstance(ax, int)):
        raise Unsupported('axis of a reduction')
    return ax


def reduce_bool(v, axis, neg):
    """all (any when neg) along an axis of a boolean Val."""
    axis = axis + v.ndim if axis < 0 else axis
    if not 0 <= axis < v.ndim:
        raise PyRaise('AxisError', 'axis')
    dims = [d for k, d in enumerate(v.dims) if k != axis]

    def fn(*ls):
        at = lambda l: v.at(*(list(ls[:axis]) + [l] + list(ls[axis:])))
        if neg:
            return Not(ar.forall_over([v.dims[axis]], lambda l: Not(at(l))))
        return ar.forall_over([v.dims[axis]], at)
    return Arr(Val(dims, fn, 'bool', True)) if dims else B(fn())


@ext('numpy.all', 'numpy.alltrue')
def np_all(it, a, k):
    if axis_of(a, k) is not None:
        return reduce_bool(boolval(val(a[0])), axis_of(a, k), False)
    x = a[0]
    if is_bool(x):
        return x
    if isinstance(x, (LObj, tuple)):
        ls = aslist(x)
        if all(is_bool(s[1] if s[0] == 'one' else s[3]) for s in ls.segs):
            return q_all(it, x)
    v = boolval(val(x))
    return B(ar.forall_over(v.dims, lambda *l: v.at(*l)))


@ext('numpy.any')
def np_any(it, a, k):
    if axis_of(a, k) is not None:
        return reduce_bool(boolval(val(a[0])), axis_of(a, k), True)
    x = a[0]
    if is_bool(x):
        return x
    if isinstance(x, (LObj, tuple)):
        ls = aslist(x)
        if all(is_bool(s[1] if s[0] == 'one' else s[3]) for s in ls.segs):
            return q_any(it, x)
    v = boolval(val(x))
    return B(Not(ar.forall_over(v.dims, lambda *l: Not(v.at(*l)))))


@ext('numpy.count_nonzero')
def _count_nonzero(it, a, k):
    v = boolval(val(a[0]))
    return reduce_sum(v, axis_of(a, k))


@ext('numpy.logical_and', 'numpy.bitwise_and')
def _land(it, a, k):
    return bin_bool(And, a)


@ext('numpy.logical_or', 'numpy.bitwise_or')
def _lor(it, a, k):
    return bin_bool(Or, a)


def bin_bool(op, a):
    if is_bool(a[0]) and is_bool(a[1]):
        return B(op(fm(a[0]), fm(a[1])))
    va, vb = boolval(val(a[0])), boolval(val(a[1]))
    return wrap(ar.elementwise(lambda x, y: op(x, y), va, vb, boolean=True, dtype='bool'))


@ext('numpy.logical_not')
def _lnot(it, a, k):
    if is_bool(a[0]):
        return B(Not(fm(a[0])))
    v = boolval(val(a[0]))
    return wrap(Val(v.dims, lambda *l: Not(v.at(*l)), 'bool', True))


for _n, _o in (('less_equal', 'LtE'), ('less', 'Lt'), ('greater', 'Gt'), ('greater_equal', 'GtE'), ('equal', 'Eq'), ('not_equal', 'NotEq')):
    FN['numpy.' + _n] = (lambda o: lambda it, a, k: it.ext.compare(it, o, a[0] if not isinstance(a[0], LObj) else Arr(val(a[0])), a[1]))(_o)
for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'), ('power', 'Pow')):
    FN['numpy.' + _n] = (lambda o: lambda it, a, k: it.ext.binop(it, o, a[0] if not isinstance(a[0], LObj) else Arr(val(a[0])), a[1]))(_o)
FN['numpy.negative'] = lambda it, a, k: it.ext.unop(it, 'USub', a[0])


def extremum(it, items, sign, what):
    """max (sign=1) or min (sign=-1) of a list of segments of numbers."""
    c = ctx()
    flat_ = []
    for s in items:
        g = s[1] if s[0] == 'one' else s[3]
        if g is None:
            raise PyRaise('TypeError')
        flat_.append((s, num(g)))
    if not flat_:
        raise PyRaise('ValueError', 'empty sequence')
    if len(flat_) == 1 and flat_[0][0][0] == 'one':
        return flat_[0][1]
    if all(s[0] == 'one' for s, _ in flat_) and len(flat_) == 2:
        x, y = flat_[0][1], flat_[1][1]
        return ite(Ge(x, y) if sign > 0 else Le(x, y), x, y)
    name, ix = it.fresh_name(what)
    r = Term.atom(name, *ix)
    ex = []
    tot = P(0)
    for s, g in flat_:
        f = Le(g, r) if sign > 0 else Le(r, g)
        if s[0] == 'one':
            c.assume(f)
            ex.append(Eq(r, g))
            tot = tot + 1
        else:
            c.assume(Forall([(s[2], s[1])], f))
            v = fresh('q', s[1])
            ex.append(Exists([(v, s[1])], Eq(r, g.subst({s[2]: V(v)}))))
            tot = tot + s[1]
    if not c.branch(ILt(0, tot)):
        raise PyRaise('ValueError', 'empty sequence')
    c.assume_skolem(Or(*ex))
    return r


def axis_ext(it, v, axis, sign, what):
    """Largest (smallest) element along an axis."""
    c = ctx()
    axis = axis + v.ndim if axis < 0 else axis
    if v.ndim != 2 or not 0 <= axis < 2 or v.boolean:
        raise Unsupported('%s along an axis of a %d-dimensional array' % (what, v.ndim))
    di, dj = v.dims[1 - axis], v.dims[axis]
    if c.branch(IEq(dsize(dj), 0)):
        raise PyRaise('ValueError', 'zero-size array to reduction operation')
    name, ix = it.fresh_name(what)
    at = lambda i, j: T(v.at(i, j) if axis == 1 else v.at(j, i))
    r = lambda i: Term.atom(name, *(list(ix) + [ar.flat(di, i)]))
    c.assume(ar.forall_over([di, dj], lambda i, j: Le(at(i, j), r(i)) if sign > 0 else Le(r(i), at(i, j))))
    if len(dj) == 1 and not dj[0].r:
        reg_range(name + '.arg', lambda args: dsize(dj))
        c.assume(ar.forall_over([di], lambda i: Eq(r(i), at(i, (0, PA(name + '.arg', *(list(ix) + [ar.flat(di, i)])))))))
    return Arr(Val([di], r, v.dtype))


def _np_maxmin(sign, what):
    g = _maxmin(sign, what)

    def f(it, a, k):
        ax = axis_of(a, k)
        v = a[0].val() if isinstance(a[0], Arr) else None
        if ax is None and is_num(a[0]) and not k:
            return a[0]          # of a number
        if ax is None or (v is not None and v.ndim == 1 and ax in (0, -1)):
            return g(it, [a[0]], {n: k[n] for n in k if n != 'axis'})
        if v is None or set(k) - {'axis'}:
            raise Unsupported('max with axis')
        return axis_ext(it, v, ax, sign, what)
    return f


def _maxmin(sign, what):
    def f(it, a, k):
        if 'axis' in k or 'key' in k:
            raise Unsupported('max with axis or key')
        for key in ('initial', 'default'):
            if key in k and len(a) == 1 and (key == 'initial') == isinstance(a[0], Arr):
                e = k[key]
                if isinstance(a[0], Arr):
                    v = a[0].val()
                    empty = Or(*[IEq(dsize(d), 0) for d in v.dims]) if v.dims else FALSE
                else:
                    empty = IEq(P(aslist(a[0]).length()), 0)
                if ctx().branch(empty):
                    return e
                r = f(it, [a[0]], {})
                return r if key == 'default' else f(it, [r, e], {})
        if len(a) > 1:
            if all(is_int(x) for x in a):
                r = P(a[0])
                for x in a[1:]:
                    x = P(x)
                    if ctx().branch(ILe(r, x)) == (sign > 0):
                        r = x
                return I(r)
            return extremum(it, [('one', x) for x in a], sign, what)
        x = a[0]
        if isinstance(x, Arr):
            v = x.val()
            if v.boolean:
                return np_any(it, [x], {}) if sign > 0 else np_all(it, [x], {})
            segs = []

            def go(ds, locs, vs):
                if not ds:
                    segs.append((locs, vs))
                    return
                for l, w in ar.generic_locs(ds[0], 'q'):
                    go(ds[1:], locs + [l], vs + w)
            go(list(v.dims), [], [])
            items = []
            for locs, vs in segs:
                if len(vs) > 1:
                    return multi_ext(it, v, segs, sign, what)
                items.append(('fam', vs[0][1], vs[0][0], v.at(*locs)) if vs else ('one', v.at(*locs)))
            return extremum(it, items, sign, what)
        l = aslist(x)
        if l.concrete() and all(isinstance(y, int) for y in l.items()) and l.segs:
            return max(l.items()) if sign > 0 else min(l.items())
        if l.concrete() and len(l.items()) > 1 and all(is_int(y) for y in l.items()):
            return f(it, list(l.items()), {})
        return extremum(it, l.segs, sign, what)
    return f


def multi_ext(it, v, segs, sign, what):
    c = ctx()
    name, ix = it.fresh_name(what)
    r = Term.atom(name, *ix)
    ex = []
    n = P(0)
    for locs, vs in segs:
        g = T(v.at(*locs))
        c.assume(Forall(vs, Le(g, r) if sign > 0 else Le(r, g)))
        mp = {w: V(fresh('q', s)) for w, s in vs}
        ex.append(Exists([(mp[w].single(), s) for w, s in vs], Eq(r, g.subst(mp))))
    c.assume_skolem(Or(*ex))
    return r


def _of_selection(h, pos):
    """min and max of an increasing list of indices: its first and last elements."""
    def g(it, a, k):
        if len(a) == 1 and not k and isinstance(a[0], LObj) and not a[0].concrete():
            l = a[0]
            if selection(l) is not None and it.ext.truth(it, lg.ILt(0, P(l.length()))):
                return nm.list_getitem(l, 0 if pos == 0 else I(P(l.length()) - 1))
        return h(it, a, k)
    return g


FN['max'], FN['min'] = _of_selection(_maxmin(1, 'max'), 1), _of_selection(_maxmin(-1, 'min'), 0)
for _n in ('numpy.max', 'numpy.amax'):
    FN[_n] = _np_maxmin(1, 'max')
for _n in ('numpy.min', 'numpy.amin'):
    FN[_n] = _np_maxmin(-1, 'min')


def _mm2(sign):
    def f(it, a, k):
        if is_num(a[0]) and is_num(a[1]):
            x, y = num(a[0]), num(a[1])
            return ite(Ge(x, y) if sign > 0 else Le(x, y), x, y)
        va, vb = val(a[0]), val(a[1])
        c = ctx()
        for u, w, pick in ((va, vb, 0), (vb, va, 1)):
            q = ar.elementwise(lambda x, y: Ge(x, y) if sign > 0 else Le(x, y), u, w, boolean=True)
            if c.refuted(Not(ar.forall_over(q.dims, q.at))):
                return wrap(ar.elementwise(lambda x, y: T(y if pick else x), va, vb))
        return wrap(ar.elementwise(lambda x, y: ite(Ge(x, y) if sign > 0 else Le(x, y), T(x), T(y)), va, vb))
    return f


FN['numpy.maximum'] = _mm2(1)
FN['numpy.minimum'] = _mm2(-1)


@ext('numpy.clip')
def _clip(it, a, k):
    a = list(a) + [None] * (3 - len(a))
    for key in k:
        i = {'a_min': 1, 'min': 1, 'a_max': 2, 'max': 2}.get(key)
        if i is None:
            raise Unsupported('clip %s' % key)
        a[i] = k[key]
    if len(a) != 3:
        raise Unsupported('clip')
    r = a[0]
    if a[1] is not None:
        r = FN['numpy.maximum'](it, [r, a[1]], {})
    if a[2] is not None:
        r = FN['numpy.minimum'](it, [r, a[2]], {})
    return r


@ext('round', 'numpy.round', 'numpy.around', 'numpy.round_')
def _round(it, a, k):
    a = list(a) + ([k['decimals']] if 'decimals' in k else []) + ([k['ndigits']] if 'ndigits' in k else [])
    d = a[1] if len(a) > 1 else 0
    d = P(d).const() if isinstance(d, (int, Poly)) and P(d).is_const() else None
    if d is None or not 0 <= d <= 15 or len(a) > 2 or set(k) - {'decimals', 'ndigits'}:
        raise Unsupported('round')
    kind = 'round%d' % d
    if isinstance(a[0], (int, Poly)):
        return a[0]
    if is_num(a[0]):
        if len(a) == 1 and not k:
            raise Unsupported('round to an integer')
        return derive(kind, num(a[0]))
    v = val(a[0])
    return Arr(Val(v.dims, lambda *l: derive(kind, v.at(*l)), v.dtype))


@ext('copy.copy', 'copy.deepcopy')
def _copy(it, a, k):
    return copyval(a[0], False)


def copyval(x, deep):
    if isinstance(x, Obj):
        o = Obj(x.cls, x.attrs)
        o.built = x.built
        if deep:
            o.attrs = {n: copyval(v, True) for n, v in x.attrs.items()}
        return o
    if isinstance(x, Arr):
        return Arr(x.val())
    if isinstance(x, LObj):
        return LObj([s if not deep else (('one', copyval(s[1], True)) if s[0] == 'one' else s[:3] + (copyval(s[3], True),)) for s in x.segs])
    if isinstance(x, DObj):
        return DObj({n: (copyval(v, True) if deep else v) for n, v in x.d.items()})
    if x is None or is_num(x) or is_bool(x) or isinstance(x, (str, tuple, Str, SStr)):
        return x
    if isinstance(x, Opaque) or getattr(x, 'immutable', False):
        return x
    raise Unsupported('copy of %s' % type(x).__name__)


FN['copy.deepcopy'] = lambda it, a, k: copyval(a[0], True)


@ext('callable')
def _callable(it, a, k):
    return isinstance(a[0], (Func, Bound, Ext, ExtMethod))


@ext('map')
def _map(it, a, k):
    l = aslist(a[1])
    if not l.concrete():
        raise Unsupported('map over a symbolic list')
    return LObj.of([it.call(a[0], [x]) for x in l.items()])


# ------------------------------------------------------------------ array constructors
def shape_arg(s):
    if is_int(s):
        return [P(s)]
    if isinstance(s, (tuple, LObj)):
        return [P(x) for x in aslist(s).items()]
    raise Unsupported('shape')


def dim_of(n):
    """Dimension of a given size: sums of block sizes become blocks."""
    c = ctx()
    n = P(n)
    if not n.is_const() and c.int_nonneg(n) is not True:
        if not c.branch(ILe(0, n)):
            raise PyRaise('ValueError', 'negative dimensions')
    if n.is_const() and n.const() < 0:
        raise PyRaise('ValueError', 'negative dimensions')
    ap = n.single()
    if isinstance(ap, App) and ap.name.startswith('psum:'):
        body = c.psums.get(ap.name)
        if body is not None:
            v = fresh('r', ap.args[0])
            return (R(ap.args[0], v, D(body(V(v)))),)
    return D(n)


def const_arr(s, x, dtype='float'):
    dims = [dim_of(n) for n in shape_arg(s)]
    if dtype == 'bool':
        t = ip.fm(x) if is_bool(x) else (FALSE if T(x).is_zero() else TRUE)
        return Arr(Val(dims, lambda *l: t, 'bool', True))
    t = T(x)
    return mk(dims, lambda *l: t, dtype)


def dtype_of(k, a, pos, dflt='float'):
    d = k.get('dtype', a[pos] if len(a) > pos else None)
    if d is None:
        return dflt
    n = d.name if isinstance(d, (Ext, Opaque)) else str(d)
    n = n.replace('builtins.', '')
    return 'float' if 'float' in n else ('bool' if 'bool' in n else 'any')


@ext('numpy.zeros')
def _zeros(it, a, k):
    if dtype_of(k, a, 1) == 'bool':
        dims = [dim_of(n) for n in shape_arg(a[0])]
        return mk(dims, lambda *l: FALSE, 'bool', True)
    return const_arr(a[0] if a else k['shape'], 0, dtype_of(k, a, 1))


@ext('numpy.ones')
def _ones(it, a, k):
    return const_arr(a[0] if a else k['shape'], 1, dtype_of(k, a, 1))


@ext('numpy.full')
def _full(it, a, k):
    x = a[1] if len(a) > 1 else k['fill_value']
    if dtype_of(k, a, 2, 'bool' if is_bool(x) else 'float') == 'bool':
        if not is_bool(x):
            raise Unsupported('boolean array of numbers')
        return const_arr(a[0], x, 'bool')
    return const_arr(a[0], num(x))


@ext('numpy.empty')
def _empty(it, a, k):
    name, ix = it.fresh_name('empty')
    dims = [dim_of(n) for n in shape_arg(a[0])]
    return mk(dims, lambda *l: Term.atom(name, *(list(ix) + [ar.flat(d, x) for d, x in zip(dims, l)])))


def _like(x):
    def f(it, a, k):
        v = val(a[0])
        t = T(x)
        return mk(v.dims, lambda *l: t, v.dtype)
    return f


FN['numpy.zeros_like'] = _like(0)
FN['numpy.ones_like'] = _like(1)


@ext('numpy.eye', 'numpy.identity')
def _eye(it, a, k):
    if len(a) > 1 or k:
        raise Unsupported('eye with options')
    d = dim_of(a[0])
    return mk([d, d], lambda x, y: Term.delta(ar.flat(d, x) - ar.flat(d, y)))


@ext('numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.asfarray', 'numpy.copy', 'numpy.atleast_1d')
def _array(it, a, k):
    x = a[0]
    if isinstance(x, Arr):
        return Arr(x.val())
    if isinstance(x, Opaque):
        h = OPAQUE.get(x.kind, {}).get('toarray')
        if h is None:
            raise Unsupported('array of %s' % x.kind)
        return h(it, x)
    if isinstance(x, (LObj, tuple)):
        ls = aslist(x)
        for s in ls.segs:
            g = s[1] if s[0] == 'one' else s[3]
            if g is None:
                raise Unsupported('array of None')
        v = val(x)
        if any(s[0] == 'one' and isinstance(s[1], Term) for s in ls.segs):
            v = Val(v.dims, v.fn, 'float', v.boolean)
        return Arr(v)
    if is_num(x):
        t = num(x)
        return mk([], lambda: t)
    raise Unsupported('array of %s' % type(x).__name__)


_plain_array = FN['numpy.array']


def _typed(it, a, k, share):
    """numpy.array and numpy.asarray with an element type; asarray of an array that has the type is that array."""
    dt = k['dtype'] if 'dtype' in k else a[1] if len(a) > 1 else None
    x = a[0]
    if dt is None:
        return x if share and isinstance(x, Arr) else _plain_array(it, [x], {})
    return _m_astype(it, x if isinstance(x, Arr) else _plain_array(it, [x], {}), [dt], {'copy': not share})


FN['numpy.asarray'] = lambda it, a, k: _typed(it, a, k, True)
FN['numpy.array'] = lambda it, a, k: _typed(it, a, k, False)


def at2(v):
    if v.ndim == 0:
        w = v
        return Val([D(1), D(1)], lambda a, b: w.at(), w.dtype)
    if v.ndim == 1:
        w = v
        return Val([D(1), w.dims[0]], lambda a, b: w.at(b), w.dtype, w.boolean)
    return v


FN['numpy.atleast_2d'] = lambda it, a, k: Arr(at2(val(a[0])))


def nonempty_list(x):
    l = aslist(x)
    if not l.segs:
        raise PyRaise('ValueError', 'need at least one array')
    if not l.concrete() and not any(s[0] == 'one' for s in l.segs):
        if not ctx().branch(ILt(0, l.length())):
            raise PyRaise('ValueError', 'need at least one array')
    return l


@ext('numpy.vstack', 'numpy.row_stack')
def _vstack(it, a, k):
    if isinstance(a[0], Arr):
        if a[0].ndim == 2:
            return Arr(a[0].val())
        raise Unsupported('vstack of an array')
    return Arr(ar.concat(fam_parts(nonempty_list(a[0]), lambda x: at2(val(x))), 0))


@ext('numpy.hstack')
def _hstack(it, a, k):
    l = nonempty_list(a[0])
    p = fam_parts(l, lambda x: at1(val(x)))
    nd = (p[0] if isinstance(p[0], Val) else p[0][3]).ndim
    return Arr(ar.concat(p, 0 if nd == 1 else 1))


def at1(v):
    if v.ndim == 0:
        w = v
        return Val([D(1)], lambda a: w.at(), w.dtype)
    return v


@ext('numpy.column_stack')
def _column_stack(it, a, k):
    def col(v):
        if v.ndim == 1:
            w = v
            return Val([w.dims[0], D(1)], lambda x, y: w.at(x), w.dtype)
        return v
    return Arr(ar.concat(fam_parts(nonempty_list(a[0]), lambda x: col(val(x))), 1))


@ext('numpy.concatenate', 'numpy.r_')
def _concatenate(it, a, k):
    axis = k.get('axis', a[1] if len(a) > 1 else 0)
    p = fam_parts(nonempty_list(a[0]), val)
    nd = (p[0] if isinstance(p[0], Val) else p[0][3]).ndim
    if nd == 0:
        raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    if axis is None:
        raise Unsupported('concatenate with axis None')
    if axis < 0:
        axis += nd
    return Arr(ar.concat(p, axis))


@ext('numpy.append')
def _append(it, a, k):
    ax = k.get('axis', a[2] if len(a) > 2 else None)
    va, vb = val(a[0]), val(a[1])
    if ax is None:
        if va.ndim == 1 and vb.ndim <= 1:
            return Arr(ar.concat([va, at1(vb)], 0))
        raise Unsupported('append')
    return Arr(ar.concat([va, vb], ax))


@ext('numpy.stack')
def _stack(it, a, k):
    if k.get('axis', 0) == 0 and len(a) == 1:
        return Arr(stack_list(a[0]))
    raise Unsupported('stack')


@ext('numpy.block')
def _block(it, a, k):
    rows = aslist(a[0])
    if rows.segs and all(isinstance(s[1] if s[0] == 'one' else s[3], (LObj, tuple)) for s in rows.segs):
        out = []
        for s in rows.segs:
            if s[0] != 'one':
                raise Unsupported('block family')
            out.append(ar.concat(fam_parts(s[1], lambda x: at2(val(x))), 1))
        return Arr(ar.concat(out, 0))
    return _hstack(it, a, k)


@ext('scipy.linalg.block_diag')
def _block_diag(it, a, k):
    parts = []
    for x in a:
        if isinstance(x, StarList):
            parts += fam_parts(x.l, lambda y: at2(val(y)))
        else:
            parts.append(at2(val(x)))
    if not parts:
        # scipy: block_diag() is an array of shape (1, 0)
        return mk([D(1), ()], lambda x, y: T(0))
    return Arr(ar.block_diag(parts))


@ext('numpy.dot', 'numpy.matmul')
def _dot(it, a, k):
    if is_num(a[0]) or is_num(a[1]):
        return it.ext.binop(it, 'Mult', a[0], a[1])
    return wrap(ar.dot(val(a[0]), val(a[1])))


@ext('numpy.inner', 'numpy.vdot')
def _inner(it, a, k):
    va, vb = val(a[0]), val(a[1])
    if va.ndim == 1 and vb.ndim == 1:
        return wrap(ar.dot(va, vb))
    raise Unsupported('inner')


@ext('numpy.linalg.multi_dot')
def _multi_dot(it, a, k):
    l = aslist(a[0])
    if not l.concrete():
        raise Unsupported('multi_dot')
    r = val(l.items()[0])
    for x in l.items()[1:]:
        r = ar.dot(r, val(x))
    return wrap(r)


@ext('numpy.outer')
def _outer(it, a, k):
    va, vb = val(a[0]), val(a[1])
    return mk([va.dims[0], vb.dims[0]], lambda x, y: T(va.at(x)) * T(vb.at(y)))


@ext('numpy.transpose')
def _transpose(it, a, k):
    return nm.transpose(a[0])


@ext('numpy.trace')
def _trace(it, a, k):
    v = val(a[0])
    d, m1, m2 = ar.align(v.dims[0], v.dims[1])
    return ar.sum_over(d, lambda l: v.at(m1(l), m2(l)))


@ext('numpy.diag')
def _diag(it, a, k):
    v = val(a[0])
    if len(a) > 1 or k:
        raise Unsupported('diagonal offset')
    if v.ndim == 1:
        d = v.dims[0]
        return mk([d, d], lambda x, y: Term.delta(ar.flat(d, x) - ar.flat(d, y)) * T(v.at(x)))
    if len(v.dims[0]) == 1 == len(v.dims[1]) and not v.dims[0][0].r and not v.dims[1][0].r:
        n0, n1 = dsize(v.dims[0]), dsize(v.dims[1])
        n = n0 if n0 == n1 or ctx().branch(ILe(n0, n1)) else n1
        return mk([D(n)], lambda l: v.at((0, l[1]), (0, l[1])))
    d, m1, m2 = ar.align(v.dims[0], v.dims[1])
    return mk([d], lambda l: v.at(m1(l), m2(l)))


@ext('numpy.shape')
def _shape(it, a, k):
    return Arr(val(a[0])).shape() if not isinstance(a[0], Arr) else a[0].shape()


@ext('numpy.size')
def _size(it, a, k):
    return a[0].size() if isinstance(a[0], Arr) else 1


@ext('numpy.ndim')
def _ndim(it, a, k):
    return val(a[0]).ndim


@ext('numpy.ravel')
def _ravel(it, a, k):
    return flatten(a[0])


@ext('numpy.reshape')
def _reshape(it, a, k):
    return reshape(val(a[0]), a[1], isinstance(a[0], Arr) and a[0])


@ext('numpy.squeeze')
def _squeeze(it, a, k):
    v = val(a[0])
    keep = [i for i, d in enumerate(v.dims) if not ar.is_one(d)]
    for i in keep:
        if not dsize(v.dims[i]).is_const() and ctx().int_nonneg(dsize(v.dims[i]) - 2) is not True:
            raise Unsupported('squeeze of a dimension of unknown size')

    def fn(*ls):
        ls = list(ls)
        return v.at(*[ls.pop(0) if i in keep else ar.first_loc(d) for i, d in enumerate(v.dims)])
    return wrap(Val([v.dims[i] for i in keep], fn, v.dtype))


@ext('numpy.expand_dims')
def _expand_dims(it, a, k):
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    x = a[0]
    dims = list(x.dims)
    dims.insert(ax, D(1))
    return view(x, dims, lambda *ls: [l for i, l in enumerate(ls) if i != ax])


def reshape(v, shp, base=None):
    sh = shape_arg(shp)
    c = ctx()
    neg = [i for i, n in enumerate(sh) if n.is_const() and n.const() == -1]
    tot = P(1)
    for d in v.dims:
        tot = tot * dsize(d)
    if neg:
        rest = P(1)
        for i, n in enumerate(sh):
            if i not in neg:
                rest = rest * n
        q = ar.polydivmod(tot, rest)
        if q is None or q[1] != P(0):
            raise Unsupported('reshape')
        sh[neg[0]] = q[0]
    new = P(1)
    for n in sh:
        new = new * n
    if not c.branch(IEq(tot, new)):
        raise PyRaise('ValueError', 'cannot reshape')
    # dropping or adding unit dimensions
    src = [i for i, d in enumerate(v.dims) if not ar.is_one(d)]
    dst = [i for i, n in enumerate(sh) if c.int_zero(n - 1) is not True]
    if len(src) == len(dst) and all(c.int_zero(dsize(v.dims[i]) - sh[j]) is True for i, j in zip(src, dst)):
        dims = [v.dims[src[dst.index(j)]] if j in dst else D(1) for j in range(len(sh))]

        def m(*ls):
            out = []
            for i, d in enumerate(v.dims):
                if i in src:
                    out.append(ls[dst[src.index(i)]])
                else:
                    out.append(ar.first_loc(d))
            return out
        if base is not None and base is not False:
            return view(base, dims, m)
        return Arr(Val(dims, lambda *ls: v.at(*m(*ls)), v.dtype, v.boolean))
    # one dimension seen as two (row major)
    if v.ndim == 1 and len(sh) == 2 and len(v.dims[0]) == 1 and not v.dims[0][0].r:
        n1 = sh[1]
        return mk([D(sh[0]), D(n1)], lambda x, y: v.at((0, x[1] * n1 + y[1])), v.dtype)
    if v.ndim == 1 and len(sh) == 2 and len(v.dims[0]) == 1 and v.dims[0][0].r:
        s = v.dims[0][0]
        if s.v not in dsize(s.d).vars() and c.int_zero(s.c - sh[0]) is True and c.int_zero(dsize(s.d) - sh[1]) is True:
            return mk([D(s.c), s.d], lambda x, y: v.at((0, x[1], y)), v.dtype)
    raise Unsupported('reshape')


def flatten(x):
    v = val(x)
    if v.ndim == 1:
        return Arr(v)
    ones = [i for i, d in enumerate(v.dims) if ar.is_one(d)]
    if v.ndim - len(ones) <= 1:
        keep = [i for i in range(v.ndim) if i not in ones] or [0]
        k0 = keep[0]
        return mk([v.dims[k0]], lambda l: v.at(*[l if i == k0 else ar.first_loc(d) for i, d in enumerate(v.dims)]), v.dtype, v.boolean)
    if v.ndim == 2 and len(v.dims[0]) == 1 and not v.dims[0][0].r:
        n = v.dims[0][0].n
        w = fresh('r', n)
        return mk([(R(n, w, v.dims[1]),)], lambda l: v.at((0, l[1]), l[2]), v.dtype, v.boolean)
    raise Unsupported('flatten')


@ext('numpy.where', 'numpy.nonzero', 'numpy.flatnonzero', 'numpy.argwhere')
def _where(it, a, k):
    if len(a) == 3:
        return wrap(ar.elementwise(lambda c, x, y: ite(c, T(x), T(y)), boolval(val(a[0])), val(a[1]), val(a[2])))
    x = a[0]
    if isinstance(x, (LObj, tuple)):
        l = aslist(x)
        segs = []
        base = P(0)
        for s, g in bool_list(it, l):
            if s[0] == 'one':
                if ctx().branch(g):
                    segs.append(('one', I(base)))
                base = base + 1
            else:
                segs += nm.filter_fam(s[1], s[2], g, lambda p, base=base: I(base + p))
                base = base + s[1]
        r = LObj(segs)
    else:
        r = where_list(boolval(val(x)))
    r.np = True
    return (r,)


FN['numpy.flatnonzero'] = lambda it, a, k: _where(it, a, k)[0]


@ext('numpy.argwhere')
def _argwhere(it, a, k):
    raise Unsupported('argwhere')


@ext('numpy.arange')
def _arange(it, a, k):
    if all(is_int(x) for x in a):
        r = LObj(aslist(_range(it, a, {})).segs)
        r.np = True
        return r
    raise Unsupported('arange')


@ext('numpy.ndindex')
def _ndindex(it, a, k):
    sh = shape_arg(a[0] if len(a) == 1 else tuple(a))
    if len(sh) != 2:
        raise Unsupported('ndindex')
    n, m = sh
    if n.is_const() and m.is_const():
        return LObj.of([(i, j) for i in range(n.const()) for j in range(m.const())])
    return Opaque('ndindex', sizes=(n, m))



@ext('numpy.isclose')
def _isclose(it, a, k):
    va, vb = val(a[0]), val(a[1])
    rtol = T(k.get('rtol', a[2] if len(a) > 2 else T(1e-5)))
    atol = T(k.get('atol', a[3] if len(a) > 3 else T(1e-8)))
    return wrap(ar.elementwise(lambda x, y: Le(absterm(T(x) - T(y)), atol + rtol * absterm(y)), va, vb, boolean=True, dtype='bool'))


@ext('numpy.allclose')
def _allclose(it, a, k):
    h = getattr(ctx(), 'allclose_hook', None)
    if h is not None:
        given = list(zip(a[2:4], (1e-5, 1e-8))) + [(k.get('rtol'), 1e-5), (k.get('atol'), 1e-8)]
        if all(x is None or (constof(x) is not None and constof(x) <= constof(z)) for x, z in given):
            return h(it, a[:2], {})
    r = _isclose(it, a, k)
    return np_all(it, [r], {})


@ext('numpy.array_equal')
def _array_equal(it, a, k):
    va, vb = val(a[0]), val(a[1])
    if va.ndim != vb.ndim:
        return False
    for x, y in zip(va.dims, vb.dims):
        if not ctx().branch(IEq(dsize(x), dsize(y))):
            return False
    return np_all(it, [wrap(ar.elementwise(lambda x, y: Eq(x, y), va, vb, boolean=True, dtype='bool'))], {})


@ext('numpy.delete')
def _delete(it, a, k):
    x = a[0]
    ax = k.get('axis', a[2] if len(a) > 2 else None)
    if ax is None:
        raise Unsupported('delete without axis')
    i = a[1]
    if not is_int(i):
        raise Unsupported('delete of a list')
    v = val(x)
    d = v.dims[ax]
    n = dsize(d)
    i = nm.norm_index(i, n)
    lo, mlo, rest, mrest = ar.split_dim(d, i)
    mid, mm, hi, mhi = ar.split_dim(rest, P(1))

    def fn(*ls):
        ls = list(ls)
        l = ls[ax]
        ls[ax] = mlo(l) if l[0] < len(lo) else mrest(mhi((l[0] - len(lo),) + tuple(l[1:])))
        return v.at(*ls)
    dims = list(v.dims)
    dims[ax] = tuple(lo) + tuple(hi)
    return Arr(Val(dims, fn, v.dtype))


@ext('numpy.argmax', 'numpy.argmin')
def _argmax(it, a, k, least=False):
    v = val(a[0])
    if len(a) > 1 or k or v.ndim != 1:
        raise Unsupported('argmax')
    n = dsize(v.dims[0])
    if not ctx().branch(ILt(0, n)):
        raise PyRaise('ValueError', 'argmax of an empty array')
    if v.boolean:
        l = where_list(boolval(v) if not least else Val(v.dims, lambda l: Not(v.at(l)), 'bool', True))
        if it.ext.truth(it, ILt(0, P(l.length()))):
            return nm.list_getitem(l, 0)
        return I(P(0))
    name, ix = it.fresh_name('arg')
    if ix:
        raise Unsupported('argmax in a comprehension')
    i = V(name)
    NONNEG[name] = 0
    c = ctx()
    c.assume(ILt(i, n))
    x = nm.at_locs(v, [('idx', i)])
    q = fresh('q', n)
    y = nm.at_locs(v, [('idx', V(q))])
    c.assume(Forall([(q, n)], Le(y, x) if not least else Le(x, y)))
    return I(i)


FN['numpy.argmin'] = lambda it, a, k: _argmax(it, a, k, True)


@ext('numpy.setdiff1d')
def _setdiff1d(it, a, k):
    x, y = aslist(a[0]), aslist(a[1])
    if k or selection(x) is None:
        raise Unsupported('setdiff1d')          # increasing and without repetitions already
    r = LObj(nm.set_op('Sub', SetObj(x), SetObj(y)).lst.segs)
    r.np = True
    return r


@ext('numpy.cumsum', 'numpy.argsort', 'numpy.sort', 'numpy.unique')
def _uns(it, a, k):
    raise Unsupported('numpy order/scan function')


# ------------------------------------------------------------------ linear algebra
@ext('numpy.linalg.norm')
def _norm(it, a, k):
    v = val(a[0])
    if len(a) > 1 and a[1] is not None and a[1] != 2 or k.get('ord') not in (None, 2):
        raise Unsupported('norm order')
    axis = k.get('axis')
    if axis is None:
        if v.ndim > 2:
            raise Unsupported('norm')
        if v.ndim == 2 and (len(a) > 1 or k.get('ord')):
            raise Unsupported('spectral norm')
        t = reduce_sum(Val(v.dims, lambda *l: T(v.at(*l)) * T(v.at(*l))), None)
        return derive('sqrt', t) if not T(t).is_zero() else T(0)
    s = reduce_sum(Val(v.dims, lambda *l: T(v.at(*l)) * T(v.at(*l))), axis)
    if is_num(s):
        return derive('sqrt', T(s))
    sv = s.val()
    r = Val(sv.dims, lambda *l: derive('sqrt', sv.at(*l)) if not T(sv.at(*l)).is_zero() else T(0), 'float')
    if k.get('keepdims'):
        ax = axis + v.ndim if axis < 0 else axis
        dims = list(r.dims)
        dims.insert(ax, D(1))
        return mk(dims, lambda *ls: r.at(*[l for i, l in enumerate(ls) if i != ax]))
    return Arr(r)


def square(v):
    if v.ndim != 2:
        raise PyRaise('LinAlgError')
    if not ctx().branch(IEq(dsize(v.dims[0]), dsize(v.dims[1]))):
        raise PyRaise('LinAlgError')


def fresh_mat(it, prefix, d0, d1, sym=False):
    """Matrix of fresh symbols with the given dimensions; atoms are per pair of leaf segments."""
    name, ix = it.fresh_name(prefix)

    def nm_(l):
        return '.'.join(str(x) for x in _shape_nums(l))

    def fn(a, b):
        return Term.atom('%s/%s/%s' % (name, nm_(a), nm_(b)) if (_multi(d0) or _multi(d1)) else name,
                         *(list(ix) + ar.loc_leaves(a) + ar.loc_leaves(b)))
    if sym and not _multi(d0) and not ix:
        tm.ATOMS.sym.add(name)
    return Val([d0, d1], fn), name


def fresh_vec(it, prefix, d0):
    name, ix = it.fresh_name(prefix)

    def fn(a):
        return Term.atom('%s/%s' % (name, '.'.join(str(x) for x in _shape_nums(a))) if _multi(d0) else name, *(list(ix) + ar.loc_leaves(a)))
    return Val([d0], fn), name


def _multi(d):
    return len(d) > 1 or (len(d) == 1 and d[0].r)


def _shape_nums(l):
    if len(l) == 2:
        return [l[0]]
    return [l[0]] + _shape_nums(l[2])


def known_nonsingular(v):
    c = ctx()
    for h in getattr(c, 'nonsing', []):
        if h(v):
            return True
    return False


def add_zero_matrix(c, v, prefer, name=''):
    """Rules out of a matrix that is identically zero."""
    for la, va in ar.generic_locs(v.dims[0], 'u'):
        for lb, vb in ar.generic_locs(v.dims[1], 'u'):
            t = T(v.at(la, lb))
            if t.is_zero():
                continue
            r = rw.relation(t, [x for x, _ in va + vb], prefer, name)
            if r is not None:
                c._rules.append(r)
                c.epoch_bump()


@ext('numpy.linalg.inv')
def _inv(it, a, k):
    c = ctx()
    v = val(a[0])
    square(v)
    if not k.get('known') and not known_nonsingular(v):
        nme, ix = it.fresh_name('singular')
        if c.branch(lg.Pred(nme, *ix)):
            raise PyRaise('LinAlgError')
    trust('numpy.linalg.inv: M^-1 M = M M^-1 = I, LinAlgError if singular')
    hook = getattr(c, 'inv_hook', None)
    if hook is not None:
        r = hook(v)
        if r is not None:
            return r
    for w, q in getattr(c, 'inverses', []):
        if same_matrix(v, w):
            return Arr(q)
    d, m1, m2 = ar.align(v.dims[0], v.dims[1])
    g = Val([d, d], lambda x, y: v.at(m1(x), m2(y)))
    sym = is_sym(g)
    r, name = fresh_mat(it, 'inv', d, d, sym)
    eye = lambda x, y: Term.delta(ar.flat(d, x) - ar.flat(d, y))
    one = ar.dot(r, g)
    two = ar.dot(g, r)
    pf = lambda fs: sum(10 for f in fs if f.name.startswith(name))
    add_zero_matrix(c, Val([d, d], lambda x, y: T(one.at(x, y)) - eye(x, y)), pf, 'inv')
    add_zero_matrix(c, Val([d, d], lambda x, y: T(two.at(x, y)) - eye(x, y)), pf, 'inv')
    c.inverses = getattr(c, 'inverses', [])
    res = Val([v.dims[1], v.dims[0]], lambda x, y: r.at(x, y)) if dkey(d) == dkey(v.dims[0]) == dkey(v.dims[1]) else r
    c.inverses.append((v, res))
    return Arr(res)


def same_matrix(v, w):
    """Equal canonical forms (the inverse of the same matrix is the same)."""
    if v is w:
        return True
    if any(dkey(a) != dkey(b) for a, b in zip(v.dims, w.dims)):
        return False
    for la, va in ar.generic_locs(v.dims[0], 'u'):
        for lb, vb in ar.generic_locs(v.dims[1], 'u'):
            if T(v.at(la, lb)).key != T(w.at(la, lb)).key:
                return False
    return True


def is_sym(v):
    """Is the matrix symmetric (canonical forms agree)?"""
    if dkey(v.dims[0]) != dkey(v.dims[1]):
        return False
    gl = ar.generic_locs(v.dims[0], 'u')
    gl2 = ar.generic_locs(v.dims[0], 'u')
    for la, _ in gl:
        for lb, _ in gl2:
            if not (T(v.at(la, lb)) - T(v.at(lb, la))).is_zero():
                return False
    return True


@ext('numpy.linalg.solve')
def _solve(it, a, k):
    c = ctx()
    A, b = val(a[0]), val(a[1])
    square(A)
    if not known_nonsingular(A):
        nme, ix = it.fresh_name('singular')
        if c.branch(lg.Pred(nme, *ix)):
            raise PyRaise('LinAlgError')
    trust('numpy.linalg.solve: A x = b, LinAlgError if singular')
    hook = getattr(c, 'inv_hook', None)
    if hook is not None:
        r = hook(A)
        if r is not None:
            return wrap(ar.dot(r.val(), b))
    if b.ndim == 1:
        d, m1, m2 = ar.align(A.dims[0], b.dims[0])
        if getattr(c, 'solve_by_inverse', False) or any(same_matrix(A, w) for w, q in getattr(c, 'inverses', [])):
            x = ar.dot(_inv(it, [a[0]], {'known': True}).val(), b)
        else:
            x, name = fresh_vec(it, 'solve', A.dims[1])
        lhs = ar.dot(A, x)
        f = ar.forall_over([d], lambda l: Eq(lhs.at(m1(l)), b.at(m2(l))))
        c.assume(f)
        c.calls.append(('solve', A, b, x))
        return Arr(x)
    inv = _inv(it, [a[0]], {'known': True})
    return wrap(ar.dot(inv.val(), b))


@ext('numpy.linalg.cholesky')
def _cholesky(it, a, k):
    c = ctx()
    v = val(a[0])
    square(v)
    ok = any(h(v) for h in getattr(c, 'posdef', []))
    if not ok:
        nme, ix = it.fresh_name('notposdef')
        if c.branch(lg.Pred(nme, *ix)):
            raise PyRaise('LinAlgError')
    trust('numpy.linalg.cholesky: H = L L^T with L invertible, for positive definite H')
    L, name = fresh_mat(it, 'chol', v.dims[0], v.dims[0])
    p = ar.dot(L, Val([L.dims[1], L.dims[0]], lambda x, y: L.at(y, x)))
    pf = lambda fs: sum(-10 for f in fs if f.name.startswith(name))
    add_zero_matrix(c, Val(v.dims, lambda x, y: T(p.at(x, y)) - T(v.at(x, y))), pf, 'cholesky')
    c.nonsing = getattr(c, 'nonsing', []) + [lambda w: w.ndim == 2 and w is L]
    c.chol = (v, L)
    return Arr(L)


def constof(x):
    t = T(x)
    return t.constval() if t.is_const() else None


@ext('numpy.linalg.pinv')
def _pinv(it, a, k):
    c = ctx()
    v = val(a[0])
    cut = [x for x in list(a[1:]) + [k.get('rcond'), k.get('rtol')] if x is not None]
    if k.get('hermitian'):
        raise Unsupported('pinv of a hermitian matrix')
    if cut and not all(is_num(x) and constof(x) is not None and constof(x) <= constof(1e-15) for x in cut):
        return Arr(fresh_mat(it, 'pinv', v.dims[1], v.dims[0])[0])      # singular values are cut off: any matrix
    trust('numpy.linalg.pinv: B B+ B = B, (B B+)^T = B B+')
    r, name = fresh_mat(it, 'pinv', v.dims[1], v.dims[0])
    c.pinvs = getattr(c, 'pinvs', [])
    c.pinvs.append((v, r, name))
    h = getattr(c, 'pinv_hook', None)
    if h is not None:
        h(v, r, name)
    return Arr(r)


@ext('scipy.linalg.expm')
def _expm(it, a, k):
    c = ctx()
    v = val(a[0])
    trust('scipy.linalg.expm computes the matrix exponential')
    r, name = fresh_mat(it, 'expm', v.dims[0], v.dims[1])
    c.calls.append(('expm', v, r))
    return Arr(r)


@ext('scipy.linalg.solve_discrete_are')
def _dare(it, a, k):
    c = ctx()
    h = getattr(c, 'dare_hook', None)
    if h is None:
        raise Unsupported('solve_discrete_are outside of its contract')
    return h(it, a, k)


@ext('numpy.linalg.matrix_rank')
def _rank(it, a, k):
    c = ctx()
    h = getattr(c, 'rank_hook', None)
    v = val(a[0])
    cut = [x for x in list(a[1:2]) + [k.get('tol'), k.get('rtol')] if x is not None]
    if len(a) > 2 or k.get('hermitian'):
        raise Unsupported('rank of a hermitian matrix')
    for d in v.dims:
        e = IEq(dsize(d), 0)
        if c.branch(e):
            raise PyRaise("ValueError")
    if cut and constof(cut[0]) != 0:
        # singular values are cut off: at most the rank
        exact = _rank(it, [a[0]], {})
        name, ix = it.fresh_name('rank')
        if ix:
            raise Unsupported('rank with a tolerance in a comprehension')
        NONNEG[name] = 0
        c.assume(ILe(V(name), P(exact)))
        return V(name)
    if h is not None:
        return h(it, v)
    name, ix = it.fresh_name('rank')
    trust('numpy.linalg.matrix_rank returns the exact rank')
    r = nm.PA(name, *ix) if ix else V(name)
    if ix:
        lg.APP_RANGE[name] = lambda z, app, y: [y >= 0]
    else:
        NONNEG[name] = 0
    c.assume(And(ILe(0, r), ILe(r, dsize(v.dims[0])), ILe(r, dsize(v.dims[1]))))
    c.calls.append(('rank', v, r))
    return r


@ext('numpy.linalg.matrix_power')
def _matpow(it, a, k):
    v = val(a[0])
    square(v)
    n = a[1]
    return Arr(matpow(v, n))


def matpow(v, n):
    c = ctx()
    d = v.dims[0]
    eye = Val([d, d], lambda x, y: Term.delta(ar.flat(d, x) - ar.flat(d, y)))
    if isinstance(n, int):
        if n < 0:
            raise Unsupported('negative matrix power')
        r = eye
        for j in range(n):
            r = v if j == 0 else ar.dot(r, v)
        return r
    n = P(n)
    if c.int_nonneg(n) is not True:
        raise Unsupported('matrix power with an exponent of unknown sign')
    key, idx = power_name(v)
    c.powers = getattr(c, 'powers', {})
    c.powers[key] = v
    return Val([d, d], lambda x, y: power_atom(key, n, x, y, d))


def power_name(v):
    gl = ar.generic_locs(v.dims[0], 'u')
    (la, va), = ar.generic_locs(v.dims[0], 'u') if len(gl) == 1 else [(None, None)]
    if la is None:
        raise Unsupported('power of a block matrix')
    (lb, vb), = ar.generic_locs(v.dims[1], 'u')
    t = T(v.at(la, lb)).subst({va[0][0]: V('%r'), vb[0][0]: V('%c')})
    import hashlib
    return 'mpow:' + hashlib.sha1(t.key.encode()).hexdigest()[:8], None


def power_atom(key, n, x, y, d):
    if n.is_const():
        v = ctx().powers[key]
        return matpow(v, n.const()).at(x, y)
    return Term.atom(key, n, ar.flat(d, x), ar.flat(d, y))


def hook_fn(name, attr):
    def f(it, a, k):
        h = getattr(ctx(), attr, None)
        if h is None:
            raise Unsupported('%s outside of its contract' % name)
        return h(it, a, k)
    FN[name] = f


hook_fn('numpy.linalg.svd', 'svd_hook')
hook_fn('numpy.linalg.qr', 'qr_hook')
hook_fn('numpy.linalg.eig', 'eig_hook')
hook_fn('numpy.linalg.eigvals', 'eigvals_hook')
hook_fn('scipy.optimize.nnls', 'nnls_hook')
hook_fn('scipy.spatial.HalfspaceIntersection', 'halfspace_hook')
hook_fn('scipy.spatial.ConvexHull', 'hull_hook')
hook_fn('numpy.random.rand', 'rand_hook')
hook_fn('gurobipy.Model', 'grb_model_hook')
hook_fn('gurobipy.LinExpr', 'grb_lin_hook')
hook_fn('gurobipy.QuadExpr', 'grb_quad_hook')


# ------------------------------------------------------------------ methods
@meth('Arr', 'dot')
def _m_dot(it, o, a, k):
    if is_num(a[0]):
        return it.ext.binop(it, 'Mult', o, a[0])
    if a[0] is None:
        raise Unsupported('dot with None')
    return wrap(ar.dot(o.val(), val(a[0])))


@meth('Arr', 'clip')
def _m_clip(it, o, a, k):
    return FN['numpy.clip'](it, [o] + list(a), k)


@meth('Arr', 'round')
def _m_round(it, o, a, k):
    return FN['numpy.round'](it, [o] + list(a), k)


@meth('Arr', 'astype')
def _m_astype(it, o, a, k):
    n = a[0].name if isinstance(a[0], (Ext, Opaque)) else str(a[0])
    v = o.val()
    if set(k) - {'copy'} or len(a) > 1:
        raise Unsupported('astype with options')
    if 'float' in n:
        if k.get('copy', True) is False and v.dtype == 'float' and not v.boolean:
            return o
        if v.boolean:
            return Arr(Val(v.dims, lambda *l: indicator(v.at(*l)), 'float'))
        return Arr(Val(v.dims, v.at, 'float'))
    if n == 'any' and v.dtype == 'float' and not v.boolean:
        # a type that may be an integer type
        return Arr(Val(v.dims, lambda *l: lg.derive('trunc', v.at(*l)), 'any'))
    raise Unsupported('astype %s' % n)


@meth('Arr', 'copy')
def _m_copy(it, o, a, k):
    return Arr(o.val())


@meth('Arr', 'flatten')
def _m_flatten(it, o, a, k):
    return flatten(o)


@meth('Arr', 'ravel')
def _m_ravel(it, o, a, k):
    return flatten(o)


@meth('Arr', 'reshape')
def _m_reshape(it, o, a, k):
    return reshape(o.val(), a[0] if len(a) == 1 else tuple(a), o)


@meth('Arr', 'transpose')
def _m_transpose(it, o, a, k):
    return nm.transpose(o)


@meth('Arr', 'sum')
def _m_sum(it, o, a, k):
    return reduce_sum(o.val(), k.get('axis', a[0] if a else None))


@meth('Arr', 'all')
def _m_all(it, o, a, k):
    return np_all(it, [o] + a, k)


@meth('Arr', 'any')
def _m_any(it, o, a, k):
    return np_any(it, [o] + a, k)


@meth('Arr', 'max')
def _m_max(it, o, a, k):
    return FN['numpy.max'](it, [o] + a, k)


@meth('Arr', 'min')
def _m_min(it, o, a, k):
    return FN['numpy.min'](it, [o] + a, k)


@meth('Arr', 'argmax')
def _m_argmax(it, o, a, k):
    return FN['numpy.argmax'](it, [o] + a, k)


@meth('Arr', 'argmin')
def _m_argmin(it, o, a, k):
    return FN['numpy.argmin'](it, [o] + a, k)


@meth('Arr', 'tolist')
def _m_tolist(it, o, a, k):
    return LObj(aslist(o).segs)


@meth('Arr', 'item')
def _m_item(it, o, a, k):
    return num(o)


@meth('Arr', 'nonzero')
def _m_nonzero(it, o, a, k):
    return _where(it, [o], {})


@meth('Arr', 'squeeze')
def _m_squeeze(it, o, a, k):
    return _squeeze(it, [o], {})


@meth('Arr', 'fill')
def _m_fill(it, o, a, k):
    t = num(a[0])
    store(o, Val(o.dims, lambda *l: t, o.dtype))


@meth('LObj', 'append')
def _l_append(it, o, a, k):
    o.mutate(list(o.segs) + [('one', a[0])])


@meth('LObj', 'extend')
def _l_extend(it, o, a, k):
    o.mutate(list(o.segs) + list(aslist(a[0]).segs))


@meth('LObj', 'insert')
def _l_insert(it, o, a, k):
    if isinstance(a[0], int) and a[0] == 0:
        o.mutate([('one', a[1])] + list(o.segs))
        return
    if isinstance(a[0], int) and o.concrete():
        s = list(o.segs)
        s.insert(a[0], ('one', a[1]))
        o.mutate(s)
        return
    raise Unsupported('list.insert')


@meth('LObj', 'pop')
def _l_pop(it, o, a, k):
    i = a[0] if a else -1
    if not o.segs:
        raise PyRaise('IndexError')
    if isinstance(i, int) and (o.concrete() or (i == -1 and o.segs[-1][0] == 'one') or (i == 0 and o.segs[0][0] == 'one')):
        s = list(o.segs)
        r = s.pop(i)
        o.mutate(s)
        return r[1]
    if isinstance(i, int) and i == 0:
        return drop_head(it, o)
    raise Unsupported('list.pop')


@meth('LObj', 'remove')
def _l_remove(it, o, a, k):
    if o.concrete():
        s = list(o.segs)
        for j, x in enumerate(s):
            if it.ext.truth(it, it.ext.compare(it, 'Eq', x[1], a[0])):
                del s[j]
                o.mutate(s)
                return
        raise PyRaise('ValueError')
    # a selection of distinct indices in increasing order: the selection without this one
    f = selection(o)
    if f is None or not is_int(a[0]):
        raise Unsupported('list.remove on a symbolic list')
    n, var, cond = f
    i = P(a[0])
    c = ctx()
    if not c.branch(And(lg.ILe(0, i), lg.ILt(i, n), cond.subst({var: i}))):
        raise PyRaise('ValueError')
    o.mutate(nm.filter_fam(n, var, And(cond, lg.Not(IEq(V(var), i))), lambda p: I(p)))


def selection(l):
    """(n, var, condition) of a list of the indices below n that satisfy a condition, else None."""
    if len(l.segs) != 1 or l.segs[0][0] != 'fam':
        return None
    _, n, v, g = l.segs[0]
    if not is_int(g):
        return None
    g = P(g)
    if g == V(v):
        return P(n), v, lg.TRUE
    for name, n0, var, cond, m, phi, psi in getattr(ctx(), 'filters', []):
        if g == phi(V(v)) and P(n) == P(m):
            return n0, var, cond
    return None


@meth('LObj', 'index')
def _l_index(it, o, a, k):
    if o.concrete():
        for j, x in enumerate(o.segs):
            if it.ext.truth(it, it.ext.compare(it, 'Eq', x[1], a[0])):
                return j
        raise PyRaise('ValueError')
    if len(o.segs) == 1 and o.segs[0][0] == 'fam' and len(a) == 1:
        # the first position whose element equals the value
        _, n, v, g = o.segs[0]
        w = a[0]
        f = g if w is True and (isinstance(g, (Fm, bool))) else it.ext.compare(it, 'Eq', g, w)
        if isinstance(f, bool):
            f = lg.TRUE if f else lg.FALSE
        if isinstance(f, Fm):
            sel = LObj(nm.filter_fam(P(n), v, f, lambda p: I(p)))
            if not it.ext.truth(it, lg.ILt(0, P(sel.length()))):
                raise PyRaise('ValueError')
            q = nm.list_getitem(sel, 0)
            ctx().assume(f.subst({v: P(q)}))      # (an instance of the definition of the selection)
            return q
    raise Unsupported('list.index on a symbolic list')


@meth('LObj', 'tolist', 'copy')
def _l_tolist(it, o, a, k):
    return LObj(o.segs)


@meth('LObj', 'reverse')
def _l_reverse(it, o, a, k):
    o.mutate(reverse_segs(o.segs))


@meth('LObj', 'sort')
def _l_sort(it, o, a, k):
    o.mutate(_sorted(it, [o], k).segs)


@meth('DObj', 'items')
def _d_items(it, o, a, k):
    return LObj.of([(x, y) for x, y in o.d.items()])


@meth('DObj', 'keys')
def _d_keys(it, o, a, k):
    return LObj.of(list(o.d))


@meth('DObj', 'values')
def _d_values(it, o, a, k):
    return LObj.of(list(o.d.values()))


@meth('DObj', 'get')
def _d_get(it, o, a, k):
    return o.d.get(Frame.key(a[0]), a[1] if len(a) > 1 else None)


@meth('DObj', 'update')
def _d_update(it, o, a, k):
    if a:
        if not isinstance(a[0], DObj):
            raise Unsupported('dict.update')
        for x, y in a[0].d.items():
            o.set(x, y)
    for x, y in k.items():
        o.set(x, y)


@meth('DObj', 'copy')
def _d_copy(it, o, a, k):
    return DObj(o.d)


@meth('str', 'format', 'join', 'strip', 'lower', 'upper')
def _s_format(it, o, a, k):
    return Str()


@meth('Str', 'format', 'join', 'strip')
def _s_format2(it, o, a, k):
    return Str()


def _set_binary(op):
    def h(it, o, a, k):
        if len(a) != 1:
            raise Unsupported('set operation on several sets')
        return nm.set_op(op, o, a[0] if isinstance(a[0], SetObj) else SetObj(LObj(aslist(a[0]).segs)))
    return h


meth('SetObj', 'difference')(_set_binary('Sub'))
meth('SetObj', 'intersection')(_set_binary('BitAnd'))


@meth('SetObj', 'pop')
def _set_pop(it, o, a, k):
    l = nm.distinct(o)
    if not l.segs:
        raise PyRaise('KeyError', 'pop from an empty set')
    if len(l.segs) != 1 or l.segs[0][0] != 'one':
        raise Unsupported('pop of a set with several elements')
    o.lst = o.norm = LObj([])
    return l.segs[0][1]


@ext('slice')
def _slice(it, a, k):
    return slice(*a)


@ext('numpy.kron')
def _kron(it, a, k):
    va, vb = val(a[0]), val(a[1])
    if va.ndim != vb.ndim or va.boolean or vb.boolean or any(len(d) != 1 or d[0].r for d in va.dims):
        raise Unsupported('kron')
    dims = [(ar.R(dsize(x), fresh('r', dsize(x)), y),) for x, y in zip(va.dims, vb.dims)]
    return Arr(Val(dims, lambda *ls: T(va.at(*[(0, l[1]) for l in ls])) * T(vb.at(*[l[2] for l in ls]))))


@ext('numpy.tile')
def _tile(it, a, k):
    v, reps = val(a[0]), a[1]
    reps = list(aslist(reps).items()) if isinstance(reps, (LObj, tuple)) else [reps]
    if not all(is_int(r) for r in reps) or v.boolean or v.ndim > len(reps) and v.ndim > 1 or len(reps) > 2:
        raise Unsupported('tile')
    if len(reps) == 2 and v.ndim == 1:
        w = v
        v = Val([D(1), w.dims[0]], lambda i, j: w.at(j), w.dtype)
    dims = [(ar.R(P(r), fresh('r', P(r)), y),) for r, y in zip(reps, v.dims)]
    return Arr(Val(dims, lambda *ls: T(v.at(*[l[2] for l in ls])), v.dtype))


def _tri(upper):
    def f(it, a, k):
        v = val(a[0])
        off = a[1] if len(a) > 1 else k.get('k', 0)
        if v.ndim != 2 or not is_int(off):
            raise Unsupported('triangular part')

        def at(i, j):
            p, q = ar.flat(v.dims[0], i) + P(off), ar.flat(v.dims[1], j)
            return ite(ILe(p, q) if upper else ILe(q, p), T(v.at(i, j)), T(0))
        return Arr(Val(v.dims, at, v.dtype))
    return f


FN['numpy.triu'], FN['numpy.tril'] = _tri(True), _tri(False)


@ext('numpy.split')
def _np_split(it, a, k):
    x, n = a[0], a[1]
    axis = k.get('axis', a[2] if len(a) > 2 else 0)
    if axis in (0, 1) and isinstance(n, (LObj, tuple)) and aslist(n).concrete():
        cuts = [None] + [z[1] for z in aslist(n).segs] + [None]
        return LObj.of([it.ext.getitem(it, x, (slice(None), slice(p, q)) if axis else slice(p, q)) for p, q in zip(cuts, cuts[1:])])
    if not is_int(n) or axis not in (0, 1):
        raise Unsupported('split')
    d = val(x).dims[axis]
    size = dsize(d)
    q = ar.polydivmod(size, P(n))
    if q is None or q[1] != P(0):
        raise Unsupported('split in equal parts')
    q = q[0]
    i = fresh('l', P(n))
    sl = slice(I(V(i) * q), I((V(i) + 1) * q))
    return LObj([('fam', n, i, it.ext.getitem(it, x, (slice(None), sl) if axis else sl))])


@meth('SetObj', 'symmetric_difference', 'union')
def _set_op(it, o, a, k):
    """An unknown finite set of integers (abstraction)."""
    a[:]
    name, ix = it.fresh_name('set')
    n = PA(name + '.n', *ix) if ix else V(name + '.n')
    if not ix:
        NONNEG[name + '.n'] = 0
    l = fresh('l', n)
    r = SetObj(LObj([('fam', I(n), l, I(PA(name, *(list(ix) + [V(l)]))))]))
    r.norm = r.lst
    return r
