"""Semantics of the Python builtins and of the numpy / scipy calls met in the code under verification.

Floating point numbers are treated as real numbers; shapes are symbolic.  Array library calls whose result is not
elementary (inverse, svd, nnls, qhull ...) are given by contracts on fresh symbols; every such contract is listed in
TRUSTED when used.
"""
import ast
from fractions import Fraction
import z3
from .poly import Poly, P, V, App, A as PA
from . import term as tm
from . import logic as lg
from .term import Term, T
from .logic import (Fm, TRUE, FALSE, And, Or, Not, Implies, Iff, Forall, Exists, RANGES, NONNEG, fresh, ite, indicator,
                    Le, Lt, Ge, Gt, Eq, ILe, ILt, IEq, derive)
from .ctx import Unsupported, Infeasible
from . import arr as ar
from .arr import Arr, Val, PyRaise, I, D, S, R, dsize, dkey, dsubst, ctx, mk
from .interp import (Ext, Func, Cls, Obj, Bound, ExtMethod, LObj, DObj, SetObj, RangeObj, Str, Opaque, StarList, LazyMod,
                     LazyName, resolve, is_int, is_num, is_bool, fm, B, vsubst, vmerge, Frame, Poison)
from . import rewrite as rw

FN = {}              # external function name -> handler(interp, args, kwargs)
METH = {}            # (type name, method) -> handler(interp, obj, args, kwargs)
OPAQUE = {}          # kind -> {'getattr': f, 'call': f}


def ext(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


def meth(t, *names):
    def deco(f):
        for n in names:
            METH[(t, n)] = f
        return f
    return deco


TRUE_KINDS = {'region', 'explicit', 'hull', 'grbmodel', 'grbconstr', 'grbcon', 'set', 'dtype'}   # objects without a length
LIST_KINDS = {'active', 'guess', 'facets', 'vertices', 'rows', 'cbasis', 'grbvars', 'symdict', 'objdict', 'flatlist'}


class SStr(object):
    """String with symbolic integer parts."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        self.parts = tuple(out)

    def subst(self, mp):
        return SStr([p if isinstance(p, str) else p.subst(mp) for p in self.parts])


def trust(name):
    c = ctx()
    if name not in c.assumed:
        c.assumed.append(name)


def rule(theorem, text):
    """A mathematical rule used as a fact; it is proved in lemmas/ (Lean)."""
    trust('rule proved in Lean (lemmas/%s): %s' % (theorem, text))


# ------------------------------------------------------------------ helpers
def missing_field(o, n):
    """A field that a specification did not give its object: a field that the constructor initializes with a constant has that value
    (one state out of many: the scenario then counts as bounded), one that is only assigned elsewhere is missing in that state."""
    if o.built:
        raise PyRaise('AttributeError', n)
    asg, calls = {}, {}
    cs = [o.cls]
    while cs:
        cl = cs.pop()
        cs += [b for b in cl.bases if isinstance(b, Cls)]
        for f in cl.node.body:
            if isinstance(f, ast.FunctionDef):
                me = f.args.args[0].arg if f.args.args else None
                for x in ast.walk(f):
                    ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                    for t in ts:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Attribute) and y.attr == n and isinstance(y.value, ast.Name) and y.value.id == me:
                                asg.setdefault(f.name, []).append(x.value if y is t and isinstance(x, ast.Assign) else None)
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == me:
                        calls.setdefault(f.name, set()).add(x.func.attr)
    if not asg:
        raise PyRaise('AttributeError', n)
    c = ctx()
    init = [y for f, ys in asg.items() if f == '__init__' or f in calls.get('__init__', ()) for y in ys]
    c.partial.append('field %s: only in the state after construction' % n)
    if not init:
        raise PyRaise('AttributeError', n)
    if any(y is None for y in init) or len({ast.dump(y) for y in init}) != 1:
        raise Unsupported('field %s is not part of the specification' % n)
    y = init[0]
    if isinstance(y, ast.Constant) and (y.value is None or isinstance(y.value, (bool, str))):
        r = y.value
    elif isinstance(y, ast.List) and not y.elts:
        r = LObj([])
    elif isinstance(y, ast.Dict) and not y.keys:
        r = DObj({})
    elif isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('dict', 'list') and not y.args and not y.keywords:
        r = DObj({}) if y.func.id == 'dict' else LObj([])
    else:
        raise Unsupported('field %s is not part of the specification' % n)
    if not o.frozen:
        o.set(n, r)
    return r


def num(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return T(int(x))
    if isinstance(x, Fm):
        return indicator(x)
    if isinstance(x, (int, Poly, float, Fraction)):
        return T(x)
    if isinstance(x, Arr):
        v = x.val()
        if v.ndim == 0:
            return v.at()
        if all(ar.is_one(d) for d in v.dims):
            return num(v.at(*[ar.first_loc(d) for d in v.dims]))
    raise Unsupported('number expected, got %s' % type(x).__name__)


def val(x):
    """Array value of anything array-like."""
    if isinstance(x, Arr):
        return x.val()
    if isinstance(x, Val):
        return x
    if is_num(x) or isinstance(x, bool):
        t = num(x)
        return Val((), lambda: t, 'float' if not is_int(x) else 'any')
    if isinstance(x, Fm):
        return Val((), lambda: x, 'bool', True)
    if isinstance(x, (LObj, tuple, RangeObj)):
        return stack_list(aslist(x))
    raise Unsupported('array expected, got %s' % type(x).__name__)


def wrap(v):
    """numpy returns a scalar for zero-dimensional results."""
    if isinstance(v, Val):
        if v.ndim == 0:
            return v.at()
        return Arr(v)
    return v


def stack_list(l):
    """np.array(list): new leading axis."""
    l = aslist(l)
    if not l.segs:
        return Val([()], lambda a: T(0))
    parts = []
    for s in l.segs:
        if s[0] == 'one':
            v = val(s[1])
            parts.append(lead(v))
        else:
            v = val(s[3])
            parts.append(('fam', s[1], s[2], lead(v)))
    return ar.concat(parts, 0)


def lead(v):
    return Val([D(1)] + list(v.dims), lambda a, *ls: v.at(*ls), v.dtype, v.boolean)


def fam_parts(l, f):
    """Parts for concatenation out of a list: f maps an item to a Val."""
    out = []
    for s in aslist(l).segs:
        if s[0] == 'one':
            out.append(f(s[1]))
        else:
            out.append(('fam', s[1], s[2], f(s[3])))
    return out


def aslist(x):
    if isinstance(x, LObj):
        return x
    if isinstance(x, tuple):
        return LObj.of(list(x))
    if isinstance(x, RangeObj):
        if x.c == 1:
            n = x.b - x.a
            f = lambda k: I(x.a + k)
        elif x.c == -1:
            n = x.a - x.b
            f = lambda k: I(x.a - k)
        else:
            if x.a.is_const() and x.b.is_const():
                return LObj.of(list(range(x.a.const(), x.b.const(), x.c)))
            raise Unsupported('range with a step')
        n = clip0(n)
        if P(n).is_const():
            return LObj.of([f(k) for k in range(P(n).const())])
        v = fresh('l', n)
        return LObj([('fam', n, v, f(V(v)))])
    if isinstance(x, Arr):
        d = x.dims
        if not d:
            raise PyRaise('TypeError', 'iteration over a 0-d array')
        segs = []
        n = dsize(d[0])
        if n.is_const():
            return LObj.of([getitem1(x, k) for k in range(n.const())])
        for k, s in enumerate(d[0]):
            if s.r:
                raise Unsupported('iteration over block rows')
            v = fresh('l', s.n)
            segs.append(('fam', I(s.n), v, sub_loc(x, 0, (k, V(v)))))
        return LObj(segs)
    if isinstance(x, SetObj):
        return distinct(x)
    if isinstance(x, DObj):
        return LObj.of(list(x.d))
    if isinstance(x, StarList):
        return x.l
    if isinstance(x, str):
        return LObj.of(list(x))
    if isinstance(x, Opaque) and 'aslist' in OPAQUE.get(x.kind, {}):
        return OPAQUE[x.kind]['aslist'](x)
    raise Unsupported('iteration over %s' % type(x).__name__)


def clip0(n):
    """max(n, 0)"""
    c = ctx()
    n = P(n)
    if n.is_const():
        return I(P(max(n.const(), 0)))
    if c.branch(ILe(0, n)):
        return I(n)
    return 0


def sub_loc(x, dimno, loc):
    """View of an array with one dimension fixed at a loc."""
    dims = [d for k, d in enumerate(x.dims) if k != dimno]

    def ins(locs):
        ls = list(locs)
        ls.insert(dimno, loc)
        return ls
    if not dims:
        return x.val().at(loc)
    return view(x, dims, lambda *locs: ins(locs))


def view(x, dims, m):
    """View on Arr x: m maps locs of the view to locs of x."""
    if x.vmap is None:
        base = x.cell.val.dims
        cell = x.cell

        def vm(*locs):
            return m(*locs)
        return Arr(cell=cell, dims=tuple(tuple(d) for d in dims), vmap=vm)
    f = x.vmap
    return Arr(cell=x.cell, dims=tuple(tuple(d) for d in dims), vmap=lambda *locs: f(*m(*locs)))


# ------------------------------------------------------------------ indexing
def norm_index(i, n):
    """Python index semantics: negative constants count from the end; checks the range."""
    c = ctx()
    if isinstance(i, bool):
        raise Unsupported('boolean index')
    if isinstance(i, Term):
        raise Unsupported('real index')
    if isinstance(i, int):
        if i < 0:
            i = P(n) + i
    i = P(i)
    lo = c.int_nonneg(i)
    if lo is not True:
        if lo is None:
            if not c.branch(ILe(0, i)):
                if c.branch(ILe(0, i + n)):
                    return norm_index(i + n, n)
                raise PyRaise('IndexError')
        else:
            if c.branch(ILe(0, i + n)):
                i = i + n
            else:
                raise PyRaise('IndexError')
    if not c.branch(ILt(i, n)):
        raise PyRaise('IndexError')
    return i


def slice_bounds(s, n):
    """(start, stop) for a step of one, clipped to [0, n]."""
    c = ctx()
    n = P(n)

    def fix(x, dflt):
        if x is None:
            return dflt
        if isinstance(x, (Term, Fm)):
            raise Unsupported('real slice bound')
        if isinstance(x, int) and x < 0:
            x = n + x
        x = P(x)
        if not c.branch(ILe(0, x)):
            x = n + x
            if not c.branch(ILe(0, x)):
                x = P(0)
        if not c.branch(ILe(x, n)):
            return n
        return x
    a, b = fix(s.start, P(0)), fix(s.stop, n)
    if not c.branch(ILe(a, b)):
        b = a
    return a, b


class Sel(object):
    """Selection in one dimension: dims of the result (None for an integer), and a map result loc -> source loc."""

    def __init__(self, dim, m, is_view, cond=None, back=None, redim=None):
        self.dim, self.m, self.is_view, self.cond, self.back, self.redim = dim, m, is_view, cond, back, redim


def single_blocks(d):
    """Repetitions with exactly one block are replaced by the block."""
    if not any(s.r and P(s.c) == P(1) for s in d):
        return d, lambda l: l
    segs, where = [], []
    for k, s in enumerate(d):
        if s.r and P(s.c) == P(1):
            for q, x in enumerate(s.at(P(0))):
                segs.append(x)
                where.append(lambda l, k=k, q=q: (k, P(0), (q,) + tuple(l[1:])))
        else:
            segs.append(s)
            where.append(lambda l, k=k: (k,) + tuple(l[1:]))
    return tuple(segs), lambda l: where[l[0]](l)


def sel_of(d, i, write=False):
    """Selection of index i in dimension d."""
    n = dsize(d)
    if isinstance(i, slice):
        if i.step not in (None, 1):
            if i.step == -1 and i.start is None and i.stop is None:
                if write:
                    raise Unsupported('reversed array')
                if n.is_const() and n.const() <= 8:
                    return sel_of(d, LObj([('one', n.const() - 1 - j) for j in range(n.const())]))
                j = fresh('rev', n)
                return sel_of(d, LObj([('fam', I(P(n)), j, I(P(n) - 1 - V(j)))]))
            raise Unsupported('array slice with a step')
        if i.start is None and i.stop is None:
            return Sel(d, lambda l: l, True, lambda l: TRUE, lambda l: l)
        a, b = slice_bounds(i, n)
        ln = b - a
        # block-aligned slice of a plain dimension: see it as blocks
        lo, mlo, rest, mrest = ar.split_dim(d, a)
        mid, mmid, hi, mhi = ar.split_dim(rest, ln)
        mid, m1 = single_blocks(mid)
        return Sel(mid, lambda l: mrest(mmid(m1(l))), True, None, None, (a, b))
    if isinstance(i, (LObj, RangeObj, tuple, SetObj)) or (isinstance(i, Arr) and not i.boolean):
        l = aslist(i)
        segs, where = [], []
        for s in l.segs:
            if s[0] == 'one':
                j = norm_index(s[1], n)
                segs.append(S(1))
                where.append(lambda off, j=j: j)
            else:
                g = s[3]
                if not is_int(g):
                    raise Unsupported('index list of %s' % type(g).__name__)
                g = check_index_range(g, s[1], s[2], n)
                segs.append(S(s[1]))
                where.append(lambda off, g=P(g), v=s[2]: g.subst({v: P(off)}))
        return Sel(tuple(segs), lambda l: ('idx', where[l[0]](l[1])), False, None, None)
    if isinstance(i, Arr) and i.boolean:
        raise Unsupported('boolean mask')
    if is_int(i):
        j = norm_index(i, n)
        l = ar.loc_of_index(d, j)
        return Sel(None, lambda _=None: l if l is not None else ('idx', j), True, None, None, ('at', j))
    raise Unsupported('index %s' % type(i).__name__)


def check_index_range(g, count, var, n):
    """All entries of an index family lie in [0, n)."""
    c = ctx()
    g = P(g)
    if var not in RANGES:
        RANGES[var] = P(count)
    for h in (g, g + P(n)):
        if c.int_nonneg(h) is True and c.int_nonneg(P(n) - 1 - h) is True:
            return h
    for h in (g, g + P(n)):
        f = Forall([(var, count)], And(ILe(0, h), ILt(h, n)))
        if c.check(f)[0]:
            return h
    f = Forall([(var, count)], And(ILe(0, g), ILt(g, n)))
    if c.branch(f):
        return g
    # a list that counts partly from the end, or outside of the array: not modelled
    raise Unsupported('index list outside of [0, n)')


def at_locs(v, locs):
    """Element of a Val at locs that may contain ('idx', integer)."""
    for k, l in enumerate(locs):
        if l[0] == 'idx':
            dd = v.dims[k]
            ll = ar.loc_of_index(dd, l[1])
            if ll is not None:
                return at_locs(v, locs[:k] + [ll] + locs[k + 1:])
            # case distinction over the segments
            base = P(0)
            r = FALSE if v.boolean else T(0)
            for kk, s in enumerate(dd):
                if s.r:
                    raise Unsupported('symbolic index into blocks')
                cond = []
                if kk > 0:
                    cond.append(ILe(base, l[1]))
                if kk < len(dd) - 1:
                    cond.append(ILt(l[1], base + s.n))
                x = at_locs(v, locs[:k] + [(kk, P(l[1]) - base)] + locs[k + 1:])
                r = Or(r, And(x, *cond)) if v.boolean else r + indicator(And(*cond)) * x
                base = base + s.n
            return r
    return v.at(*locs)


def expand_index(i, nd):
    """Index tuple with one entry per dimension."""
    if not isinstance(i, tuple):
        i = (i,)
    i = list(i)
    new = [k for k, x in enumerate(i) if x is None]
    if new:
        raise Unsupported('newaxis')
    if Ellipsis in [x for x in i if x is Ellipsis]:
        k = [n for n, x in enumerate(i) if x is Ellipsis][0]
        i[k:k + 1] = [slice(None)] * (nd - len(i) + 1)
    if len(i) > nd:
        raise PyRaise('IndexError')
    return i + [slice(None)] * (nd - len(i))


def arr_getitem(x, i):
    if isinstance(i, Arr) and i.boolean and i.ndim == 1:
        return arr_getitem(x, where_list(i.val()))
    if isinstance(i, tuple) and any(y is None for y in i):
        # newaxis
        base = tuple(y for y in i if y is not None)
        r = arr_getitem(x, base)
        pos = [k for k, y in enumerate(i) if y is None]
        dims = list(r.dims)
        for p in pos:
            dims.insert(p, D(1))
        return view(r, dims, lambda *ls: [l for k, l in enumerate(ls) if k not in pos])
    i = expand_index(i, x.ndim)
    nl = [k for k, y in enumerate(i) if isinstance(y, (LObj, RangeObj, Arr, SetObj))]
    if len(nl) > 1:
        raise Unsupported('several index lists')
    if nl and any(is_int(y) for y in i) and len(i) > 2:
        raise Unsupported('mixed advanced indexing')
    sels = [sel_of(d, y) for d, y in zip(x.dims, i)]
    dims = [s.dim for s in sels if s.dim is not None]

    def m(*locs):
        locs = list(locs)
        out = []
        for s in sels:
            if s.dim is None:
                out.append(s.m())
            else:
                out.append(s.m(locs.pop(0)))
        return out
    v = x.val()
    if not dims:
        return at_locs(v, m())
    if all(s.is_view for s in sels) and all(s.dim is not None or s.m()[0] != 'idx' for s in sels):
        return view(x, dims, lambda *locs: m(*locs))
    return Arr(Val(dims, lambda *locs: at_locs(v, m(*locs)), v.dtype, v.boolean))


def getitem1(x, k):
    return arr_getitem(x, k)


def redim(d, a, b):
    """Dimension d (single plain segment) as blocks so that [a, b) is one block: (dim, map to d, block index)."""
    ln = b - a
    if len(d) == 1 and not d[0].r:
        n = d[0].n
        if ln == P(1):
            return d, (lambda l: l), ('off', a)
        q, r = ar.polydivmod(a, ln) or (None, None)
        cnt, r2 = ar.polydivmod(n, ln) or (None, None)
        if q is not None and r == P(0) and cnt is not None and r2 == P(0):
            v = fresh('r')
            nd = (R(cnt, v, (S(ln),)),)
            return nd, (lambda l: (0, l[1] * ln + l[2][1])), ('blk', q)
    if len(d) == 1 and d[0].r:
        s = d[0]
        inner = dsize(s.d)
        if s.v not in inner.vars():
            if inner == ln:
                q = ar.polydivmod(a, inner)
                if q is not None and q[1] == P(0):
                    return d, (lambda l: l), ('blk', q[0])
        else:
            ap = a.single()
            name = 'psum:' + inner.subst({s.v: V('%')}).key
            if isinstance(ap, App) and ap.name == name and inner.subst({s.v: ap.args[0]}) == ln:
                return d, (lambda l: l), ('blk', ap.args[0])
            if a == P(0) and inner.subst({s.v: P(0)}) == ln:
                return d, (lambda l: l), ('blk', P(0))
    return None


def arr_setitem(x, i, v):
    """x[i] = v"""
    c = ctx()
    if isinstance(i, tuple) and i and isinstance(i[0], Arr) and i[0].boolean and i[0].ndim == 1 \
            and all(isinstance(y, slice) and y == slice(None) for y in i[1:]) and len(i) <= x.ndim:
        i = i[0]          # x[mask, :] = v
    if isinstance(i, Arr) and i.boolean and i.ndim == 1:
        msk = i.val()
        old = x.val()
        vv = val(v)
        if vv.ndim and vv.ndim == old.ndim - 1 and not old.boolean:
            # the same row (block) at every selected position
            d, m1, m2 = ar.align(old.dims[0], msk.dims[0])
            al = [ar.align(o, w) for o, w in zip(old.dims[1:], vv.dims)]
            store(x, Val([d] + [a[0] for a in al],
                         lambda l, *ls: ite(msk.at(m2(l)), vv.at(*[a[2](y) for a, y in zip(al, ls)]),
                                            old.at(m1(l), *[a[1](y) for a, y in zip(al, ls)])), old.dtype, old.boolean))
            return
        if vv.ndim == 0:
            y = vv.at()
            d, m1, m2 = ar.align(old.dims[0], msk.dims[0])
            store(x, Val([d] + list(old.dims[1:]),
                         lambda l, *ls: ite(msk.at(m2(l)), y, old.at(m1(l), *ls)), old.dtype, old.boolean))
            return
        raise Unsupported('masked assignment of an array')
    i = expand_index(i, x.ndim)
    if x.vmap is not None:
        # write through a view: translate into a write on the base array
        return view_setitem(x, i, v)
    old = x.cell.val
    newdims, tomap, conds, sub = [], [], [], []
    for d, y in zip(old.dims, i):
        n = dsize(d)
        if isinstance(y, slice):
            if y.step not in (None, 1):
                raise Unsupported('strided write')
            if y.start is None and y.stop is None:
                newdims.append(d)
                tomap.append(lambda l: l)
                conds.append(lambda l: TRUE)
                sub.append((d, lambda l: l))
                continue
            a, b = slice_bounds(y, n)
            if c.int_zero(b - a) is True:
                # empty region: only the shape of the value matters
                newdims.append(d)
                tomap.append(lambda l: l)
                conds.append(lambda l: FALSE)
                sub.append(((), None))
                continue
            if c.int_zero(a) is True and c.int_zero(n - b) is True:
                newdims.append(d)
                tomap.append(lambda l: l)
                conds.append(lambda l: TRUE)
                sub.append((d, lambda l: l))
                continue
            rd = redim(d, a, b)
            if rd is not None:
                nd, mp, (kind, q) = rd
                newdims.append(nd)
                tomap.append(mp)
                if kind == 'off':
                    conds.append(lambda l, nd=nd, q=q: IEq(ar.flat(nd, l), q))
                    sub.append((D(1), lambda l: (0, P(0))))
                else:
                    conds.append(lambda l, q=q: IEq(l[1], q))
                    sub.append((nd[0].at(q), lambda l: l[2]))
                continue
            lo, mlo, rest, mrest = ar.split_dim(d, a)
            mid, mmid, hi, mhi = ar.split_dim(rest, b - a)
            n1, n2 = len(lo), len(mid)
            newdims.append(tuple(lo) + tuple(mid) + tuple(hi))

            def mp(l, n1=n1, n2=n2, mlo=mlo, mrest=mrest, mmid=mmid, mhi=mhi):
                if l[0] < n1:
                    return mlo(l)
                if l[0] < n1 + n2:
                    return mrest(mmid((l[0] - n1,) + tuple(l[1:])))
                return mrest(mhi((l[0] - n1 - n2,) + tuple(l[1:])))
            tomap.append(mp)
            conds.append(lambda l, n1=n1, n2=n2: TRUE if n1 <= l[0] < n1 + n2 else FALSE)
            sub.append((mid, lambda l, n1=n1: (l[0] - n1,) + tuple(l[1:])))
        elif is_int(y):
            j = norm_index(y, n)
            l0 = ar.loc_of_index(d, j)
            newdims.append(d)
            tomap.append(lambda l: l)
            if l0 is not None:
                conds.append(lambda l, l0=l0: same_loc(l, l0))
            else:
                conds.append(lambda l, d=d, j=j: IEq(ar.flat(d, l), j))
            sub.append((None, None))
        elif isinstance(y, (LObj, RangeObj, SetObj)) or isinstance(y, Arr):
            newdims.append(d)
            tomap.append(lambda l: l)
            conds.append(('list', aslist(y), d))
            sub.append(('list', None))
        else:
            raise Unsupported('write index %s' % type(y).__name__)
    lists = [k for k, cnd in enumerate(conds) if isinstance(cnd, tuple)]
    vv = val(v)
    if lists:
        return scatter(x, old, newdims, conds, sub, lists, vv)
    tdims = [s[0] for s in sub if s[0] is not None]
    vmap = bcast_to(vv, tdims)

    def fn(*ls):
        cnd = And(*[cc(l) for cc, l in zip(conds, ls)])
        o = old.at(*[m(l) for m, l in zip(tomap, ls)])
        if cnd.op == 'false':
            return o
        sl = [s[1](l) for s, l in zip(sub, ls) if s[0] is not None]
        y = vmap(sl)
        if old.boolean:
            return Or(And(cnd, y), And(Not(cnd), o))
        if old.dtype != 'float' and vv.dtype == 'float':
            y = derive('trunc', y)
        return ite(cnd, y, o)
    x.cell.set(Val(newdims, fn, old.dtype, old.boolean))


def same_loc(a, b):
    if a[0] != b[0]:
        return FALSE
    r = IEq(a[1], b[1])
    if len(a) == 3:
        return And(r, same_loc(a[2], b[2]))
    return r


def bcast_to(vv, tdims):
    """Map from target locs to elements of vv, broadcast to the target dims."""
    maps = []
    off = len(tdims) - vv.ndim
    if off < 0:
        # leading unit dimensions may be dropped
        if all(ar.is_one(d) for d in vv.dims[:-off]):
            w = vv
            k = -off
            vv = Val(w.dims[k:], lambda *ls: w.at(*([ar.first_loc(d) for d in w.dims[:k]] + list(ls))), w.dtype, w.boolean)
            off = 0
        else:
            raise PyRaise('ValueError', 'could not broadcast')
    for k, d in enumerate(vv.dims):
        td = tdims[off + k]
        if ar.is_one(d) and not ar.is_one(td):
            maps.append(lambda l, d=d: ar.first_loc(d))
        else:
            nd, m1, m2 = ar.align(td, d)
            if dkey(nd) == dkey(td):
                maps.append(m2)
            elif len(td) == 1 and not td[0].r:
                # target is a plain dimension: look the integer index up in the value's dimension
                maps.append(lambda l, d=d, td=td: _find(d, ar.flat(td, l)))
            else:
                raise Unsupported('write of a differently segmented value')

    def f(ls):
        return at_locs(vv, [m(l) for m, l in zip(maps, ls[off:])])
    return f


def _find(d, i):
    l = ar.loc_of_index(d, i)
    return l if l is not None else ('idx', i)


def scatter(x, old, newdims, conds, sub, lists, vv):
    """Write at an index list (entries pairwise different)."""
    if len(lists) > 1:
        return scatter_pairs(x, old, newdims, conds, lists, vv)
    k0 = lists[0]
    _, l, d = conds[k0]
    for k, cnd in enumerate(conds):
        if k != k0 and not (callable(cnd) and sub[k][0] is not None and cnd(None) is TRUE if False else k != k0):
            pass
    segs = []
    n = dsize(d)
    for s in l.segs:
        if s[0] == 'one':
            segs.append((S(1), lambda off, j=norm_index(s[1], n): P(j)))
        else:
            g = check_index_range(s[3], s[1], s[2], n)
            if not old.boolean or vv.ndim:
                check_injective(s)
            segs.append((S(s[1]), lambda off, g=g, v=s[2]: g.subst({v: P(off)})))
    if len(segs) > 1 and (not old.boolean or vv.ndim):
        check_disjoint(segs)
    ldim = tuple(s for s, _ in segs)
    tdims = []
    for k, s in enumerate(sub):
        if k == k0:
            tdims.append(ldim)
        elif s[0] is not None:
            tdims.append(s[0])
    vmap = bcast_to(vv, tdims)

    def fn(*ls):
        o = old.at(*ls)
        r = o
        oc = And(*[conds[k](ls[k]) for k in range(len(ls)) if k != k0])
        for q, (s, f) in enumerate(segs):
            h = fresh('h', s.n)
            sl = []
            for k in range(len(ls)):
                if k == k0:
                    sl.append((q, V(h)))
                elif sub[k][0] is not None:
                    sl.append(sub[k][1](ls[k]))
            y = vmap(sl)
            if old.boolean:
                hit = And(IEq(f(V(h)), ar.flat(d, ls[k0])), oc)
                r = Or(Exists([(h, s.n)], And(hit, as_bool(y))), And(Not(Exists([(h, s.n)], hit)), r))
                continue
            hit = Term.delta(f(V(h)) - ar.flat(d, ls[k0])) * indicator(oc)
            r = r + (hit * (T(y) - o)).sum(h, s.n)
        return r
    x.cell.set(Val(newdims, fn, old.dtype, old.boolean))


def as_bool(y):
    if isinstance(y, Fm):
        return y
    if isinstance(y, bool):
        return TRUE if y else FALSE
    return Not(Eq(T(y), 0))


def scatter_pairs(x, old, newdims, conds, lists, vv):
    """Write at pairs (tuples) of indices: x[rows, columns] = value."""
    if len(lists) != len(conds) or vv.ndim > 1 or old.boolean:
        raise Unsupported('several index lists in a write')
    ls0 = [conds[k][1] for k in lists]
    if old.dtype != 'float' and vv.dtype == 'float':
        raise Unsupported('several index lists in a write to integers')

    def ones(l):
        out = []
        for s in l.segs:
            if s[0] == 'one':
                out.append(s[1])
            elif P(s[1]).is_const() and P(s[1]).const() <= 8 and is_int(s[3]):
                out += [I(P(s[3]).subst({s[2]: P(q)})) for q in range(P(s[1]).const())]
            else:
                return None
        return out
    flat_ = [ones(l) for l in ls0]
    if all(f is not None for f in flat_):
        if len({len(f) for f in flat_}) > 1:
            raise Unsupported('index lists of different lengths')
        ys = bcast_to(vv, [D(len(flat_[0]))])
        js = [[norm_index(e, dsize(newdims[k])) for e in f] for k, f in zip(lists, flat_)]

        def fn1(*ls):
            r = T(old.at(*ls))
            for q in range(len(flat_[0])):
                hit = And(*[IEq(P(js[k][q]), ar.flat(newdims[k], ls[k])) for k in range(len(js))])
                r = ite(hit, T(ys([(0, P(q))])), r)
            return r
        x.cell.set(Val(newdims, fn1, old.dtype, old.boolean))
        return
    if not all(len(l.segs) == 1 and l.segs[0][0] == 'fam' for l in ls0):
        raise Unsupported('several index lists in a write')
    c = ctx()
    n = P(ls0[0].segs[0][1])
    if any(c.int_zero(P(l.segs[0][1]) - n) is not True for l in ls0):
        raise Unsupported('index lists of different lengths')
    gs = []
    once = False
    for k, l in zip(lists, ls0):
        s = l.segs[0]
        g = check_index_range(s[3], s[1], s[2], dsize(newdims[k]))
        gs.append(lambda h, g=g, w=s[2]: g.subst({w: P(h)}))
        try:
            check_injective(s)
            once = True
        except Unsupported:
            pass
    if not once:
        raise Unsupported('write at an index list that may repeat')
    vmap = bcast_to(vv, [D(n)])

    def fn(*ls):
        o = old.at(*ls)
        h = fresh('h', n)
        hit = T(1)
        for k, g in enumerate(gs):
            hit = hit * Term.delta(g(V(h)) - ar.flat(newdims[k], ls[k]))
        return T(o) + (hit * (T(vmap([(0, V(h))])) - T(o))).sum(h, n)
    x.cell.set(Val(newdims, fn, old.dtype, old.boolean))


def check_injective(s):
    g = P(s[3]).single()
    if isinstance(g, App) and g.name in lg.INJ and len(g.args) and g.args[-1] == V(s[2]):
        return
    g = P(s[3])
    if g.linear_in(s[2]):
        return
    raise Unsupported('write at an index list that may repeat')


def check_disjoint(segs):
    c = ctx()
    for a in range(len(segs)):
        for b in range(a + 1, len(segs)):
            va, vb = fresh('x', segs[a][0].n), fresh('x', segs[b][0].n)
            if c.int_zero(segs[a][1](V(va)) - segs[b][1](V(vb))) is not False:
                raise Unsupported('write at an index list that may repeat')


def view_setitem(x, i, v):
    """Write through a view whose map fixes leading indices or shifts slices (solved on plain dimensions)."""
    base = x.cell.val
    # the written region: generic loc of the view
    w = Arr(x.val())
    arr_setitem(w, tuple(i), v)
    new = w.cell.val
    store(x, new)


def store(x, new):
    """Replace the whole content of Arr x (possibly a view) by the Val new."""
    if x.vmap is None:
        x.cell.set(new if new.dtype == x.cell.val.dtype else Val(new.dims, new.fn, x.cell.val.dtype, x.cell.val.boolean))
        return
    base = x.cell.val
    inv = invert_view(x)

    def fn(*ls):
        r = base.at(*ls)
        for cnd, locs in inv(ls):
            if cnd.op == 'false':
                continue
            y = new.at(*locs)
            r = Or(And(cnd, y), And(Not(cnd), r)) if base.boolean else ite(cnd, y, r)
        return r
    x.cell.set(Val(base.dims, fn, base.dtype, base.boolean))


def invert_view(x):
    """For base locs: list of (condition, view locs).  Works for maps that are affine in single index variables."""
    gens = [[]]
    for d in x.dims:
        gens = [g + [(l, vs)] for g in gens for l, vs in ar.generic_locs(d, 'w')]
    pieces = []
    for g in gens:
        bl = x.vmap(*[l for l, _ in g])
        vs = [v for _, w in g for v, _ in w]
        sizes = {v: s for _, w in g for v, s in w}
        pieces.append((g, bl, vs, sizes))

    def inv(ls):
        out = []
        for g, bl, vs, sizes in pieces:
            cond = []
            sol = {}
            ok = True
            eqs = []
            for l, b in zip(ls, bl):
                if b[0] == 'idx':
                    raise Unsupported('write through a view with a symbolic position')
                if not _pair(l, b, eqs):
                    ok = False
            if not ok:
                continue
            for p, q in eqs:      # p: polynomial in the view variables; q: base index
                done = False
                for v in vs:
                    if v in sol:
                        continue
                    cf = p.linear_in(v)
                    if cf in (1, -1) and not any(w in (p - V(v) * cf).vars() and w not in sol for w in vs if w != v):
                        e = (q - (p - V(v) * cf).subst(sol)) * cf
                        sol[v] = e
                        done = True
                        break
                if not done:
                    cond.append(IEq(p.subst(sol), q))
            if any(v not in sol for v in vs):
                raise Unsupported('cannot invert a view')
            for v in vs:
                s = sizes[v].subst(sol)
                cond += [ILe(0, sol[v]), ILt(sol[v], s)]
            out.append((And(*cond), [ar.loc_subst(l, sol) for l, _ in g]))
        return out
    return inv


def _pair(l, b, eqs):
    if l[0] != b[0]:
        return False
    eqs.append((P(b[1]), P(l[1])))
    if len(l) == 3:
        return _pair(l[2], b[2], eqs)
    return True


# ------------------------------------------------------------------ lists
def list_getitem(l, i):
    c = ctx()
    if isinstance(i, slice):
        return list_slice(l, i)
    if not is_int(i):
        raise Unsupported('list index %s' % type(i).__name__)
    n = l.length()
    if isinstance(i, int) and l.concrete():
        if not -len(l.segs) <= i < len(l.segs):
            raise PyRaise('IndexError')
        return l.segs[i][1]
    if isinstance(i, int) and i >= 0 and all(s[0] == 'one' for s in l.segs[:i + 1]) and len(l.segs) > i:
        return l.segs[i][1]
    if isinstance(i, int) and i < 0 and all(s[0] == 'one' for s in l.segs[i:]) and len(l.segs) >= -i:
        return l.segs[i][1]
    i = norm_index(i, n)
    base = P(0)
    for k, s in enumerate(l.segs):
        cnt = P(1) if s[0] == 'one' else P(s[1])
        last = k == len(l.segs) - 1
        if last or c.branch(ILt(i, base + cnt)):
            if s[0] == 'one':
                return s[1]
            return vsubst(s[3], {s[2]: i - base})
        base = base + cnt
    raise PyRaise('IndexError')


def list_slice(l, s):
    c = ctx()
    n = P(l.length())
    step = s.step if s.step is not None else 1
    if l.concrete() and all(x is None or isinstance(x, int) for x in (s.start, s.stop, s.step)):
        return LObj.of(l.items()[slice(s.start, s.stop, s.step)])
    if step == 1:
        if isinstance(s.start, int) and s.start > 0 and s.stop is None and all(x[0] == 'one' for x in l.segs[:s.start]):
            return LObj(l.segs[s.start:])
        a, b = slice_bounds(s, n)
        return LObj(cut(l.segs, a, b))
    if step == -1:
        # start down to stop (exclusive)
        a = n - 1 if s.start is None else P(s.start)
        if isinstance(s.start, int) and s.start < 0:
            a = n + s.start
        if not c.branch(ILt(a, n)):
            a = n - 1
        lo = P(0) if s.stop is None else P(s.stop) + 1
        if isinstance(s.stop, int) and s.stop < 0:
            lo = n + s.stop + 1
        if not c.branch(ILe(lo, a + 1)):
            return LObj([])
        segs = cut(l.segs, lo, a + 1)
        return LObj(reverse(segs))
    raise Unsupported('list slice with step %r' % (step,))


def reverse(segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'one':
            out.append(s)
        else:
            v = fresh('l', s[1])
            out.append(('fam', s[1], v, vsubst(s[3], {s[2]: P(s[1]) - 1 - V(v)})))
    return out


def cut(segs, a, b):
    """Segments between positions a and b."""
    c = ctx()
    out = []
    base = P(0)
    for ns, s in enumerate(segs):
        cnt = P(1) if s[0] == 'one' else P(s[1])
        lo, hi = base, base + cnt
        base = hi
        # overlap of [a, b) and [lo, hi); an empty part of the last family is an empty family
        tail = ns == len(segs) - 1 and s[0] != 'one' and c.int_nonneg(b - lo) is True and c.int_nonneg(hi - b) is True
        if tail and a == P(0) == lo:
            pass
        elif c.branch(ILe(hi, a)):
            continue
        elif c.branch(ILe(b, lo)):
            break
        st = a if c.int_nonneg(a - lo) is True else (lo if c.branch(ILe(a, lo)) else a)
        en = b if c.int_nonneg(hi - b) is True else (hi if c.branch(ILe(hi, b)) else b)
        if s[0] == 'one':
            out.append(s)
            continue
        if st == lo and en == hi:
            out.append(s)
            continue
        n = en - st
        if n.is_const() and 0 <= n.const() <= 4:
            for k in range(n.const()):
                out.append(('one', vsubst(s[3], {s[2]: st - lo + k})))
            continue
        v = fresh('l', n)
        out.append(('fam', I(n), v, vsubst(s[3], {s[2]: V(v) + (st - lo)})))
    return out


def where_list(v, want=None):
    """Indices at which a boolean vector is true, in increasing order."""
    if v.ndim != 1:
        raise Unsupported('where on a matrix')
    segs = v.dims[0]
    out = []
    base = P(0)
    for k, s in enumerate(segs):
        if s.r:
            raise Unsupported('where on blocks')
        if s.n.is_const():
            for j in range(s.n.const()):
                if ctx().branch(fm(v.at((k, P(j))))):
                    out.append(('one', I(base + j)))
        else:
            q = fresh('q', s.n)
            out += filter_fam(s.n, q, v.at((k, V(q))), lambda p, base=base: I(base + p))
        base = base + s.n
    return LObj(out)


def distinct(x):
    """The elements of a set, each once."""
    if getattr(x, 'norm', None) is not None:
        return x.norm
    c = ctx()
    l = aslist(x.lst)
    if l.concrete():
        out = []
        for s in l.segs:
            if any(s[1] is y[1] for y in out):
                continue
            if any(c.interp.ext.truth(c.interp, c.interp.ext.compare(c.interp, 'Eq', s[1], y[1])) for y in out):
                continue
            out.append(s)
        r = LObj(out)
    elif len(l.segs) == 1 and is_int(l.segs[0][3]) and not c.interp.loops:
        _, n, v, g = l.segs[0]
        g, n = P(g), P(n)
        ap = g.single()
        if g.linear_in(v) in (1, -1) or (isinstance(ap, App) and ap.name in lg.INJ and ap.args[-1] == V(v)):
            r = l
        elif not c.branch(ILt(0, n)):
            r = LObj([])
        else:
            k = fresh('k', n)
            g0 = g.subst({v: P(0)})
            if c.branch(Forall([(k, n)], IEq(g.subst({v: V(k)}), g0))):
                r = LObj.of([I(g0)])
            else:
                name = fresh('dis')
                NONNEG[name] = 2
                kk = fresh('l', V(name))
                r = LObj([('fam', I(V(name)), kk, I(PA(name + '.v', V(kk))))])
    else:
        raise Unsupported('elements of a set')
    x.norm = r
    return r


def filter_fam(n, var, cond, elt, prefix='sel'):
    """Elements of a family kept by a condition, in order: ('fam', m, k, elt(phi(k)))."""
    c = ctx()
    if cond.op == 'true':
        return [('fam', I(P(n)), var, elt(V(var)))]
    if cond.op == 'false':
        return []
    it = c.interp
    name, ix = it.fresh_name(prefix)
    n = P(n)
    m = PA(name + '.n', *ix) if ix else V(name + '.n')
    if not ix:
        NONNEG[name + '.n'] = 0
    else:
        reg_range(name + '.n', lambda args: n.subst(_mp(ix, args)) + 1)
    phi = lambda k: PA(name + '.i', *(list(ix) + [P(k)]))
    psi = lambda i: PA(name + '.p', *(list(ix) + [P(i)]))
    reg_range(name + '.i', lambda args: n.subst(_mp(ix, args)))
    if not ix:
        lg.INJ.add(name + '.i')
    k, i, k2 = fresh('k', m), fresh('i', n), fresh('k', m)
    c.assume(ILe(m, n))
    c.assume(ILe(0, m))
    c.assume(Forall([(k, m)], And(ILe(0, phi(V(k))), ILt(phi(V(k)), n))))
    c.assume(Forall([(k, m)], cond.subst({var: phi(V(k))})))
    c.assume(Forall([(i, n)], Or(Not(cond.subst({var: V(i)})),
                                 And(ILe(0, psi(V(i))), ILt(psi(V(i)), m), IEq(phi(psi(V(i))), V(i)),
                                     ILe(phi(P(0)), V(i))))))
    c.assume(Forall([(k, m)], IEq(psi(phi(V(k))), V(k))))
    c.assume(Forall([(k, m), (k2, m)], Or(ILe(V(k2), V(k)), ILt(phi(V(k)), phi(V(k2))))))
    kk = fresh('l', m)
    c.filters = getattr(c, 'filters', [])
    c.filters.append((name, n, var, cond, m, phi, psi))
    return [('fam', I(m), kk, elt(phi(V(kk))))]


def _mp(ix, args):
    return {p.single(): a for p, a in zip(ix, args) if isinstance(p.single(), str)}


def reg_range(name, size):
    """The integer function takes values in [0, size(args))."""
    def hook(z, app, y):
        n = z.poly(size(app.args))
        return [y >= 0, z3.Implies(n > 0, y < n)]
    lg.APP_RANGE[name] = hook
    lg.APP_SIZE[name] = size


# ------------------------------------------------------------------ arguments that a model does not look at
class Args(list):
    """Positional arguments that remember which of them were looked at."""
    seen = 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen = max([self.seen] + [j + 1 for j in range(*i.indices(len(self)))])
        else:
            self.seen = max(self.seen, (i if i >= 0 else i + len(self)) + 1)
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen = len(self)
        return list.__iter__(self)

    def __add__(self, o):
        self.seen = len(self)
        return list(self) + list(o)

    def __radd__(self, o):
        self.seen = len(self)
        return list(o) + list(self)


class Kwargs(dict):
    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def get(self, n, default=None):
        self.seen.add(n)
        return dict.get(self, n, default)

    def __getitem__(self, n):
        self.seen.add(n)
        return dict.__getitem__(self, n)

    def __contains__(self, n):
        self.seen.add(n)
        return dict.__contains__(self, n)

    def pop(self, n, *d):
        self.seen.add(n)
        return dict.pop(self, n, *d)

    def __iter__(self):
        self.seen.update(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.seen.update(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.seen.update(dict.keys(self))
        return dict.items(self)


def tracked(name, h, args, kwargs, *pre, **kw):
    """Call the model h; an argument that it does not look at is not modelled."""
    a, k = Args(args), Kwargs(kwargs)
    a.seen = kw.get('seen', 0)
    try:
        r = h(*(pre + (a, k)))
    except PyRaise:
        if any(n not in k.seen for n in dict.keys(k)):
            raise Unsupported('argument of %s' % name)
        raise
    if a.seen < len(a):
        raise Unsupported('argument %d of %s' % (a.seen + 1, name))
    left = [n for n in dict.keys(k) if n not in k.seen]
    if left:
        raise Unsupported('argument %s of %s' % (left[0], name))
    return r


# ------------------------------------------------------------------ the external model
class NP(object):
    def __init__(self):
        from . import loops
        self.loops = loops

    # -------- calls
    def call(self, it, f, args, kwargs):
        if isinstance(f, ExtMethod):
            o = f.obj
            if isinstance(o, Opaque):
                h = OPAQUE.get(o.kind, {}).get('call')
                if h is None:
                    raise Unsupported('method %s of %s' % (f.name, o.kind))
                return tracked('%s of %s' % (f.name, o.kind), h, args, kwargs, it, o, f.name)
            t = type(o).__name__
            h = METH.get((t, f.name))
            if h is None:
                raise Unsupported('method %s.%s' % (t, f.name))
            return tracked(f.name, h, args, kwargs, it, o)
        n = f.name
        h = FN.get(n)
        if h is None and n.startswith('builtins.'):
            h = FN.get(n[9:])
        if h is None:
            raise Unsupported('external function %s' % n)
        return tracked(n, h, args, kwargs, it)

    # -------- attributes
    def getattr(self, it, o, n):
        if isinstance(o, Poison):
            raise Unsupported('use of a value left undefined by a loop')
        if isinstance(o, Ext):
            if o.name == 'numpy' and n in ('pi', 'e', 'inf', 'nan'):
                raise Unsupported('numpy.' + n)
            if o.name == 'numpy' and n == 'newaxis':
                return None
            if o.name.startswith('gurobipy'):
                from .grbmodel import CONST
                if o.name + '.' + n in CONST:
                    return CONST[o.name + '.' + n]
            return Ext(o.name + '.' + n)
        if isinstance(o, LazyMod):
            try:
                m = it.module(o.mod)
                if n in m.ns:
                    return resolve(m.ns[n])
            except Unsupported:
                pass
            return LazyMod(it, o.mod + '.' + n)
        if isinstance(o, Obj):
            if n in o.attrs:
                return o.attrs[n]
            if n == '__class__':
                return o.cls
            if n == '__dict__':
                return Opaque('objdict', obj=o)
            m = o.cls.lookup(n)
            if m is None:
                return missing_field(o, n)
            if isinstance(m, Func):
                if m.kind == 'property':
                    return it.call(m, [o])
                if m.kind == 'staticmethod':
                    return m
                if m.kind == 'classmethod':
                    return Bound(m, o.cls)
                return Bound(m, o)
            return m
        if isinstance(o, Cls):
            m = o.lookup(n)
            if m is None:
                if n == '__name__':
                    return o.name
                raise PyRaise('AttributeError', n)
            if isinstance(m, Func) and m.kind == 'classmethod':
                return Bound(m, o)
            return m
        if isinstance(o, Arr):
            if n == 'shape':
                return o.shape()
            if n == 'size':
                return o.size()
            if n == 'ndim':
                return o.ndim
            if n == 'T':
                return transpose(o)
            if n == 'dtype':
                return Opaque('dtype', name=o.dtype)
            return ExtMethod(o, n)
        if isinstance(o, Opaque):
            g = OPAQUE.get(o.kind, {}).get('getattr')
            if g is not None:
                return g(it, o, n)
            if n in o.__dict__:
                return o.__dict__[n]
            return ExtMethod(o, n)
        if isinstance(o, Term):
            if n == 'size':
                return 1
            if n == 'shape':
                return ()
            if n == 'ndim':
                return 0
            return ExtMethod(o, n)
        if isinstance(o, (LObj, DObj, SetObj, RangeObj, str, Str, SStr, tuple, Fm, int, Poly, Val)):
            return ExtMethod(o, n)
        if o is None:
            raise PyRaise('AttributeError', n)
        raise Unsupported('attribute %s of %s' % (n, type(o).__name__))

    # -------- items
    def getitem(self, it, o, i):
        if isinstance(o, Arr):
            if isinstance(i, tuple) and not any(isinstance(x, slice) or x is Ellipsis for x in i) and len(i) == 1:
                i = i[0]
            if isinstance(i, tuple):
                return arr_getitem(o, i)
            return arr_getitem(o, i)
        if isinstance(o, LObj):
            return list_getitem(o, i)
        if isinstance(o, tuple):
            if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
                return o[i]
            if isinstance(i, int):
                if not -len(o) <= i < len(o):
                    raise PyRaise('IndexError')
                return o[i]
            return list_getitem(aslist(o), i)
        if isinstance(o, DObj):
            k = Frame.key(i)
            if k not in o.d:
                raise PyRaise('KeyError', str(k))
            return o.d[k]
        if isinstance(o, RangeObj):
            return list_getitem(aslist(o), i)
        if isinstance(o, Opaque):
            g = OPAQUE.get(o.kind, {}).get('getitem')
            if g is not None:
                return g(it, o, i)
        if isinstance(o, Ext) and o.name in ('numpy.r_', 'numpy.c_'):
            parts = [wrap(x) if isinstance(x, Val) else x for x in (i if isinstance(i, tuple) else (i,))]
            if all(isinstance(x, Arr) for x in parts):
                nd = set(x.ndim for x in parts)
                if nd == {1}:
                    return FN['numpy.concatenate' if o.name == 'numpy.r_' else 'numpy.column_stack'](it, [LObj.of(parts)], {})
                if nd == {2}:
                    return FN['numpy.concatenate'](it, [LObj.of(parts)], {'axis': -1 if o.name == 'numpy.c_' else 0})
            raise Unsupported('numpy.r_ / numpy.c_')
        if o is None:
            raise PyRaise('TypeError', 'None is not subscriptable')
        raise Unsupported('subscript of %s' % type(o).__name__)

    def setitem(self, it, o, i, v):
        if isinstance(o, Arr):
            if isinstance(i, tuple) and len(i) == 1:
                i = i[0]
            return arr_setitem(o, i, v)
        if isinstance(o, DObj):
            return o.set(Frame.key(i), v)
        if isinstance(o, LObj):
            if isinstance(i, int) and o.concrete():
                if not -len(o.segs) <= i < len(o.segs):
                    raise PyRaise('IndexError')
                segs = list(o.segs)
                segs[i] = ('one', v)
                return o.mutate(segs)
            if is_int(i):
                return list_setitem(o, i, v)
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def write_all(self, it, x, new):
        """In-place arithmetic x op= v."""
        if isinstance(x, Arr):
            v = val(new)
            if v.ndim > x.ndim:
                raise PyRaise('ValueError')
            if x.dtype != 'float' and v.dtype == 'float':
                raise PyRaise('TypeError', 'cannot cast in place')
            dims = x.dims
            f = bcast_to(v, dims)
            store(x, Val(dims, lambda *ls: f(list(ls)), x.dtype, v.boolean))
            return
        raise Unsupported('in-place operation')

    def extend(self, it, l, v):
        l.mutate(list(l.segs) + list(aslist(v).segs))

    def aslist(self, it, x):
        return aslist(x)

    # -------- operators
    def unop(self, it, op, a):
        if op == 'USub':
            if is_int(a):
                return I(-P(a))
            if is_num(a):
                return -num(a)
            if isinstance(a, Arr):
                v = a.val()
                return Arr(Val(v.dims, lambda *l: -T(v.at(*l)), v.dtype))
            if isinstance(a, Opaque):
                g = OPAQUE.get(a.kind, {}).get('binop')
                if g is not None:
                    return g(it, 'Mult', -1, a)
        if op == 'UAdd':
            return a
        if op == 'Invert' and isinstance(a, Arr) and a.boolean:
            v = a.val()
            return Arr(Val(v.dims, lambda *l: Not(v.at(*l)), 'bool', True))
        if op == 'Invert' and isinstance(a, Fm):
            return B(Not(a))
        if isinstance(a, (LObj, tuple)) or a is None:
            raise PyRaise('TypeError', 'bad operand')
        raise Unsupported('unary %s of %s' % (op, type(a).__name__))

    def binop(self, it, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('use of a value left undefined by a loop')
            if isinstance(x, Opaque):
                g = OPAQUE.get(x.kind, {}).get('binop')
                if g is not None:
                    return g(it, op, a, b)
        if isinstance(a, (Fm, bool)) and isinstance(b, (Fm, bool)) and op in ('BitAnd', 'BitOr'):
            return B(And(fm(a), fm(b)) if op == 'BitAnd' else Or(fm(a), fm(b)))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, (str, Str, SStr)) or isinstance(b, (str, Str, SStr)):
            return str_op(op, a, b)
        if isinstance(a, LObj) or isinstance(b, LObj):
            if op == 'Add' and isinstance(a, LObj) and isinstance(b, LObj):
                return LObj(list(a.segs) + list(b.segs))
            if op == 'Mult' and is_int(b):
                return list_repeat(a, b)
            if op == 'Mult' and is_int(a):
                return list_repeat(b, a)
            if not (isinstance(a, Arr) or isinstance(b, Arr)):
                raise PyRaise('TypeError')
        if isinstance(a, tuple) or isinstance(b, tuple):
            if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if op == 'Mult' and isinstance(a, tuple) and isinstance(b, int):
                return a * b
            if op == 'Mod':
                return Str()
            raise Unsupported('tuple operation')
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            return set_op(op, a, b)
        if is_int(a) and is_int(b):
            return int_op(op, a, b)
        if is_num(a) and is_num(b):
            return num_op(op, num(a), num(b), b)
        if isinstance(a, Fm):
            a = num(a)
        if isinstance(b, Fm):
            b = num(b)
        if a is None or b is None:
            raise PyRaise('TypeError', 'unsupported operand None')
        if (isinstance(a, (Arr, LObj)) or is_num(a)) and (isinstance(b, (Arr, LObj)) or is_num(b)):
            if op == 'MatMult':
                return wrap(ar.dot(val(a), val(b)))
            va, vb = val(a), val(b)
            if va.boolean and vb.boolean and op in ('BitAnd', 'BitOr', 'Mult'):
                return Arr(ar.elementwise(lambda x, y: (Or if op == 'BitOr' else And)(x, y), va, vb, boolean=True, dtype='bool'))
            return wrap(arr_op(op, va, vb))
        if isinstance(a, (LObj, DObj, Obj)) or isinstance(b, (LObj, DObj, Obj)):
            if isinstance(a, Obj) or isinstance(b, Obj):
                raise Unsupported('operator on objects')
            raise PyRaise('TypeError')
        raise Unsupported('%s of %s and %s' % (op, type(a).__name__, type(b).__name__))

    def compare(self, it, op, a, b):
        for x in (a, b):
            if isinstance(x, Opaque):
                g = OPAQUE.get(x.kind, {}).get('compare')
                if g is not None and op not in ('Is', 'IsNot'):
                    return g(it, op, a, b)
        if op in ('Is', 'IsNot'):
            for x, y in ((a, b), (b, a)):
                if y is None and hasattr(x, 'known'):
                    return B(x.known() if op == 'IsNot' else Not(x.known()))
            r = identical(a, b)
            if isinstance(r, Fm):
                return B(r if op == 'Is' else Not(r))
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            r = contains(it, a, b)
            r = fm(r)
            return B(r if op == 'In' else Not(r))
        if op == 'NotEq':
            r = self.compare(it, 'Eq', a, b)
            if isinstance(r, Arr):
                v = r.val()
                return Arr(Val(v.dims, lambda *l: Not(v.at(*l)), 'bool', True))
            return B(Not(fm(r)))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None:
                return False
            f = {'Eq': Eq, 'Lt': Lt, 'LtE': Le, 'Gt': Gt, 'GtE': Ge}[op]
            v = ar.elementwise(lambda x, y: f(num(x), num(y)), val(a), val(b), boolean=True, dtype='bool')
            return wrap(v)
        if is_int(a) and is_int(b):
            a, b = P(a), P(b)
            return B({'Eq': IEq(a, b), 'Lt': ILt(a, b), 'LtE': ILe(a, b), 'Gt': ILt(b, a), 'GtE': ILe(b, a)}[op])
        if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
            if is_bool(a) and is_bool(b) and op == 'Eq':
                return B(Iff(fm(a), fm(b)))
            f = {'Eq': Eq, 'Lt': Lt, 'LtE': Le, 'Gt': Gt, 'GtE': Ge}[op]
            return B(f(num(a), num(b)))
        if op == 'Eq':
            return equal(it, a, b)
        if a is None or b is None:
            raise PyRaise('TypeError', 'comparison with None')
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            raise Unsupported('set comparison')
        raise Unsupported('comparison %s of %s and %s' % (op, type(a).__name__, type(b).__name__))

    def as_formula(self, it, v):
        if isinstance(v, (bool, Fm)):
            return v
        if is_int(v):
            return Not(IEq(v, 0))
        if isinstance(v, (LObj, RangeObj)):
            return ILt(0, aslist(v).length())
        raise Unsupported('truth of %s' % type(v).__name__)

    def truth(self, it, v):
        c = ctx()
        if v is True or v is False:
            return v
        if isinstance(v, Fm):
            return c.branch(v)
        if v is None:
            return False
        if is_int(v):
            return not c.branch(IEq(v, 0)) if isinstance(v, Poly) else v != 0
        if is_num(v):
            return not c.branch(Eq(num(v), 0))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (LObj, RangeObj, SetObj)):
            return c.branch(ILt(0, aslist(v).length()))
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, DObj):
            return len(v.d) > 0
        if isinstance(v, (Obj, Func, Cls, Bound)):
            return True
        if isinstance(v, Arr):
            n = v.size()
            if c.int_zero(P(n) - 1) is True:
                x = v.val()
                y = x.at(*[ar.first_loc(d) for d in x.dims])
                return self.truth(it, y)
            raise PyRaise('ValueError', 'truth value of an array')
        if isinstance(v, Opaque):
            if v.kind in TRUE_KINDS:
                return True
            if v.kind in LIST_KINDS:
                # a list nothing is known about: empty or not
                if 'nonempty' not in v.__dict__:
                    n, ix = it.fresh_name('nonempty')
                    v.nonempty = lg.Pred(n, *ix)
                return c.branch(v.nonempty)
            raise Unsupported('truth value of %s' % v.kind)
        if hasattr(v, 'holds'):
            return c.branch(And(v.known(), v.holds()))
        raise Unsupported('truth value of %s' % type(v).__name__)

    def for_loop(self, frame, st, iterable):
        return self.loops.for_loop(frame, st, iterable)

    def while_loop(self, frame, st):
        return self.loops.while_loop(frame, st)

    def first(self, frame, l, default):
        """next() of a generator."""
        if self.truth(frame.interp, ILt(0, P(l.length()))):
            return list_getitem(l, 0)
        if default is None:
            raise PyRaise('StopIteration', 'empty generator')
        return default()

    def comprehension(self, frame, elt, gens):
        return self.loops.comprehension(frame, elt, gens)


def list_setitem(l, i, v):
    """l[i] = v at a symbolic position of a family: the list becomes two families and the new element."""
    n = l.length()
    i = norm_index(i, n)
    base = P(0)
    c = ctx()
    for k, s in enumerate(l.segs):
        cnt = P(1) if s[0] == 'one' else P(s[1])
        if c.branch(ILt(i, base + cnt)):
            segs = list(l.segs)
            if s[0] == 'one':
                segs[k] = ('one', v)
            else:
                off = i - base
                v2 = fresh('l', cnt - off - 1)
                segs[k:k + 1] = [('fam', I(off), s[2], s[3]), ('one', v),
                                 ('fam', I(cnt - off - 1), v2, vsubst(s[3], {s[2]: V(v2) + off + 1}))]
            l.mutate(segs)
            return
        base = base + cnt
    raise PyRaise('IndexError')


def list_repeat(l, n):
    if isinstance(n, int):
        return LObj(list(l.segs) * max(n, 0))
    n = clip0(n)
    if isinstance(n, int):
        return LObj(list(l.segs) * n)
    if len(l.segs) == 1 and l.segs[0][0] == 'one':
        v = fresh('l', n)
        return LObj([('fam', n, v, l.segs[0][1])])
    if not l.segs:
        return LObj([])
    raise Unsupported('repetition of a longer list')


def str_op(op, a, b):
    if op == 'Add':
        pa = [a] if isinstance(a, str) else (list(a.parts) if isinstance(a, SStr) else None)
        pb = [b] if isinstance(b, str) else (list(b.parts) if isinstance(b, SStr) else None)
        if pa is None or pb is None:
            return Str()
        r = SStr(pa + pb)
        if len(r.parts) == 1 and isinstance(r.parts[0], str):
            return r.parts[0]
        return r
    if op == 'Mod':
        if isinstance(a, str) and is_int(b) and a.count('%') == 1 and '%d' in a:
            u, w = a.split('%d')
            return SStr([u, b, w]) if isinstance(b, Poly) else u + str(b) + w
        return Str()
    if op == 'Mult':
        return Str()
    raise PyRaise('TypeError')


def int_op(op, a, b):
    if op == 'Add':
        return I(P(a) + P(b))
    if op == 'Sub':
        return I(P(a) - P(b))
    if op == 'Mult':
        return I(P(a) * P(b))
    if isinstance(a, int) and isinstance(b, int):
        if op in ('Div', 'FloorDiv', 'Mod') and b == 0:
            raise PyRaise('ZeroDivisionError')
        if op == 'Div':
            return T(Fraction(a, b))
        if op == 'FloorDiv':
            return a // b
        if op == 'Mod':
            return a % b
        if op == 'Pow':
            return a ** b if b >= 0 else T(Fraction(a) ** b)
    if op == 'Div':
        return num_op('Div', num(a), num(b), b)
    if op in ('FloorDiv', 'Mod'):
        q = ar.polydivmod(P(a), P(b))
        if q is not None and ctx().int_nonneg(q[1]) is True and ctx().int_nonneg(P(b) - 1 - q[1]) is True:
            return I(q[0]) if op == 'FloorDiv' else I(q[1])
    if op == 'Pow' and isinstance(b, int) and 0 <= b <= 4:
        r = P(1)
        for _ in range(b):
            r = r * P(a)
        return I(r)
    raise Unsupported('integer %s' % op)


def nonzero(t):
    c = ctx()
    t = T(t)
    if t.is_const():
        return t.constval() != 0
    return c.check(Not(Eq(t, 0)), 3000)[0]


def reciprocal(t, known=False):
    t = T(t)
    if t.is_const():
        if t.constval() == 0:
            return derive('undef', T(0) + Term.atom('zero!'))
        return T(Fraction(1) / t.constval())
    if len(t.m) == 1:
        (mo, c), = t.m.values()
        if not mo.bound and all(f.name not in (tm.DELTA, tm.GE) for f in mo.factors) and (known or nonzero(t)):
            from .term import F
            return Term.make([(((), tuple(F(f.name, f.idx, -f.pw) for f in mo.factors)), Fraction(1) / c)])
    return derive('rcp', t)


def num_op(op, a, b, braw=None):
    if op == 'Add':
        return a + b
    if op == 'Sub':
        return a - b
    if op == 'Mult':
        return a * b
    if op == 'Div':
        return a * reciprocal(b)
    if op == 'Pow':
        if isinstance(braw, int) and 0 <= braw <= 6:
            r = T(1)
            for _ in range(braw):
                r = r * a
            return r
        if isinstance(braw, int) and braw < 0:
            return num_op('Pow', reciprocal(a), None, -braw)
        if isinstance(braw, Term) and braw.is_const():
            c = braw.constval()
            if c == Fraction(1, 2):
                return derive('sqrt', a)
            if c.denominator == 1:
                return num_op('Pow', a, None, int(c))
    raise Unsupported('number %s' % op)


def arr_op(op, va, vb):
    if va.boolean:
        w = va
        va = Val(w.dims, lambda *l: indicator(w.at(*l)), 'any')
    if vb.boolean:
        w2 = vb
        vb = Val(w2.dims, lambda *l: indicator(w2.at(*l)), 'any')
    if op == 'Add':
        return ar.elementwise(lambda x, y: T(x) + T(y), va, vb)
    if op == 'Sub':
        return ar.elementwise(lambda x, y: T(x) - T(y), va, vb)
    if op == 'Mult':
        return ar.elementwise(lambda x, y: T(x) * T(y), va, vb)
    if op == 'Div':
        if vb.ndim == 0:
            r = reciprocal(vb.at())
            return Val(va.dims, lambda *l: T(va.at(*l)) * r, 'float')
        return ar.elementwise(lambda x, y: T(x) * reciprocal(y), va, vb, dtype='float')
    if op == 'Pow':
        if vb.ndim == 0:
            e = vb.at()
            if e.is_const() and e.constval().denominator == 1 and 0 <= e.constval() <= 6:
                return Val(va.dims, lambda *l: num_op('Pow', T(va.at(*l)), None, int(e.constval())), va.dtype)
    raise Unsupported('array %s' % op)


def identical(a, b):
    if isinstance(a, Opaque) and hasattr(a, 'is_none') and b is None:
        return a.is_none
    if a is None or b is None:
        return a is b
    if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)):
        return a is b or (type(a) == type(b) and a == b)
    if isinstance(a, Fm) and isinstance(b, bool):
        return a if b else Not(a)
    if isinstance(b, Fm) and isinstance(a, bool):
        return b if a else Not(b)
    return a is b


def equal(it, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        pa = a.parts if isinstance(a, SStr) else (a,)
        pb = b.parts if isinstance(b, SStr) else (b,)
        if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
            if any(isinstance(x, str) and x != y for x, y in zip(pa, pb)):
                return False
            return B(And(*[IEq(x, y) for x, y in zip(pa, pb) if not isinstance(x, str)]))
        raise Unsupported('string comparison')
    if isinstance(a, str) != isinstance(b, str) and not isinstance(a, (Str, SStr)) and not isinstance(b, (Str, SStr)):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return B(And(*[fm(it.ext.compare(it, 'Eq', x, y)) for x, y in zip(a, b)]))
    if isinstance(a, LObj) and isinstance(b, LObj):
        if a.concrete() and b.concrete():
            if len(a.segs) != len(b.segs):
                return False
            return B(And(*[fm(it.ext.compare(it, 'Eq', x, y)) for x, y in zip(a.items(), b.items())]))
        z = zip_lists([a, b], strict=True)
        if z is None:
            return False
        out = []
        for s in z.segs:
            if s[0] == 'one':
                out.append(fm(it.ext.compare(it, 'Eq', *s[1])))
            else:
                out.append(Forall([(s[2], s[1])], fm(it.ext.compare(it, 'Eq', *s[3]))))
        return B(And(*out))
    if isinstance(a, (Obj, Cls, Func)) or isinstance(b, (Obj, Cls, Func)):
        return a is b
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))


def contains(it, x, l):
    if isinstance(l, DObj):
        return Frame.key(x) in l.d
    if isinstance(l, str) and isinstance(x, str):
        return x in l
    if isinstance(l, RangeObj) and l.c == 1 and is_int(x):
        return And(ILe(l.a, x), ILt(x, l.b))
    l = aslist(l.lst if isinstance(l, SetObj) else l)
    out = []
    for s in l.segs:
        if s[0] == 'one':
            out.append(fm(it.ext.compare(it, 'Eq', x, s[1])))
        else:
            v = fresh('q', s[1])
            y = vsubst(s[3], {s[2]: V(v)})
            out.append(Exists([(v, s[1])], fm(it.ext.compare(it, 'Eq', x, y))))
    return Or(*out)


def set_op(op, a, b):
    """Difference and intersection: the elements of a outside (inside) b."""
    if op not in ('Sub', 'BitAnd'):
        raise Unsupported('set operation %s' % op)
    it = ctx().interp
    out = []
    for s in distinct(a).segs:
        if s[0] == 'one':
            if it.ext.truth(it, contains(it, s[1], b)) == (op == 'BitAnd'):
                out.append(s)
            continue
        _, n, v, g = s
        q = fresh('q', n)
        f = fm(contains(it, vsubst(g, {v: V(q)}), b))
        out += filter_fam(n, q, f if op == 'BitAnd' else Not(f), lambda x, v=v, g=g: vsubst(g, {v: P(x)}))
    r = SetObj(LObj(out))
    r.norm = r.lst
    return r


def zip_lists(ls, strict=False):
    c = ctx()
    ls = [aslist(x) for x in ls]
    if all(x.concrete() for x in ls):
        n = [len(x.segs) for x in ls]
        if strict and len(set(n)) > 1:
            return None
        return LObj.of([tuple(y) for y in zip(*[x.items() for x in ls])])
    # shortest length
    lens = [P(x.length()) for x in ls]
    n = lens[0]
    for m in lens[1:]:
        if m == n:
            continue
        if strict:
            if not c.branch(IEq(m, n)):
                return None
        elif not c.branch(ILe(n, m)):
            n = m
    cuts = [list(cut(x.segs, P(0), n)) for x in ls]
    out = []
    guard = 0
    while any(cuts):
        guard += 1
        if guard > 40:
            raise Unsupported('zip')
        heads = [q[0] if q else None for q in cuts]
        if any(h is None for h in heads):
            break
        if all(h[0] == 'one' for h in heads):
            out.append(('one', tuple(h[1] for h in heads)))
            for q in cuts:
                q.pop(0)
            continue
        sizes = [P(1) if h[0] == 'one' else P(h[1]) for h in heads]
        if any(h[0] == 'one' for h in heads):
            m = P(1)
        else:
            m = sizes[0]
            for s in sizes[1:]:
                if not c.branch(ILe(m, s)):
                    m = s
        v = fresh('l', m)
        tup = []
        for q, h, s in zip(cuts, heads, sizes):
            if h[0] == 'one':
                tup.append(h[1])
                q.pop(0)
                continue
            if m == P(1):
                tup.append(vsubst(h[3], {h[2]: P(0)}))
            else:
                tup.append(vsubst(h[3], {h[2]: V(v)}))
            if c.int_zero(s - m) is True:
                q.pop(0)
            else:
                v2 = fresh('l', s - m)
                q[0] = ('fam', I(s - m), v2, vsubst(h[3], {h[2]: V(v2) + m}))
                if c.branch(IEq(s, m)):
                    q.pop(0)
        out.append(('one', tuple(tup)) if m == P(1) else ('fam', I(m), v, tuple(tup)))
    return LObj(out)


def transpose(x):
    if x.ndim < 2:
        return x
    if x.ndim > 2:
        raise Unsupported('transpose')
    return view(x, [x.dims[1], x.dims[0]], lambda a, b: [b, a])


from . import npfuncs  # noqa: E402,F401  (registers the functions)
