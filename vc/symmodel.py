"""sympy: vectors of symbols and affine expressions in them (trusted contract: jacobian gives the coefficients, subs evaluates)."""
from .npmodel import *
from .npmodel import OPAQUE, trust
from . import npfuncs as nf


def symvec(name, n):
    return Opaque('symvec', name=name, n=P(n))


def symexpr(m, coef, const):
    """coef: {vector name: Val m x n}, const: Val m"""
    return Opaque('symexpr', m=P(m), coef=Opaque('raw', d=coef), const=const)


def _elements(x):
    if x.n.is_const():
        return LObj.of([Opaque('symbol', vec=x.name, idx=P(k)) for k in range(x.n.const())])
    k = fresh('l', x.n)
    return LObj([('fam', I(x.n), k, Opaque('symbol', vec=x.name, idx=V(k)))])


def _vec_getattr(it, o, n):
    if n == 'shape':
        return (I(o.n), 1)
    if n == 'rows':
        return I(o.n)
    return ExtMethod(o, n)


def _expr_getattr(it, o, n):
    if n == 'shape':
        return (I(o.m), 1)
    if n == 'rows':
        return I(o.m)
    return ExtMethod(o, n)


def _expr_call(it, o, n, a, k):
    if n == 'jacobian':
        x = a[0]
        if not (isinstance(x, Opaque) and x.kind == 'symvec'):
            raise Unsupported('jacobian with respect to %s' % type(x).__name__)
        trust('sympy: jacobian of an affine expression is its coefficient matrix; subs evaluates it')
        v = o.coef.d.get(x.name)
        if v is None:
            m = o.m
            v = Val([D(m), D(x.n)], lambda p, q: T(0))
        return Opaque('symmat', v=v)
    if n == 'subs':
        d = a[0]
        if isinstance(d, DObj) and not d.d:
            return o
        if not (isinstance(d, Opaque) and d.kind == 'symdict'):
            raise Unsupported('subs')
        coef = dict(o.coef.d)
        const = o.const
        for s in d.list.segs:
            if s[0] != 'fam':
                raise Unsupported('subs of single symbols')
            key, value = s[3]
            if not (isinstance(key, Opaque) and key.kind == 'symbol' and key.idx == V(s[2])):
                raise Unsupported('subs keys')
            if key.vec not in coef:
                continue
            C = coef.pop(key.vec)
            if ctx().int_zero(P(s[1]) - dsize(C.dims[1])) is not True:
                raise Unsupported('subs of some symbols')
            t = num(value)
            if t.is_zero():
                continue
            vv = Val([C.dims[1]], lambda l, t=t, s=s: t.subst({s[2]: l[1]}))
            const = ar.elementwise(lambda p, q: p + q, const, ar.dot(C, vv))
        return symexpr(o.m, coef, const)
    raise Unsupported('sympy method %s' % n)


def _expr_toarray(it, o):
    if o.coef.d:
        raise PyRaise('TypeError', 'expression with symbols')
    c = o.const
    return Arr(Val([D(o.m), D(1)], lambda p, q: c.at(p), 'object'))


def _mat_toarray(it, o):
    return Arr(Val(o.v.dims, o.v.at, 'object'))


def _dict_call(it, o, n, a, k):
    if n == 'update':
        other = a[0]
        if isinstance(other, Opaque) and other.kind == 'symdict':
            o.list = LObj(list(o.list.segs) + list(other.list.segs))
            return None
    if n in ('items', 'copy'):
        return o.list if n == 'items' else Opaque('symdict', list=LObj(o.list.segs))
    raise Unsupported('dict.%s' % n)


OPAQUE['symvec'] = {'aslist': _elements, 'getattr': _vec_getattr}
OPAQUE['symexpr'] = {'getattr': _expr_getattr, 'call': _expr_call, 'toarray': _expr_toarray}
OPAQUE['symmat'] = {'toarray': _mat_toarray}
OPAQUE['symdict'] = {'call': _dict_call}
nf.FN_LEN = getattr(nf, 'FN_LEN', {})
