"""Arrays with symbolic sizes: dimensions are concatenations of segments, elements are canonical terms.

Dim   tuple of segments; a segment is S(size) or R(count, var, inner Dim) (count blocks; the inner dimension may
      depend on the block index var).
loc   position in a Dim: (k, off) for an S segment, (k, blk, loc) for an R segment.
Val   immutable array value: dims and a function from locs to terms.
Arr   mutable numpy-like array object: a cell holding a Val, or a view on another Arr.
"""
from .poly import Poly, P, V, App
from . import term as tm
from . import logic as lg
from .term import Term, T
from .logic import RANGES, fresh, Fm, TRUE, FALSE, And, Or, Not, Forall, Exists, ite, indicator
from .ctx import Unsupported, Infeasible


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, kind, value=None):
        Exception.__init__(self, kind)
        self.kind = kind
        self.value = value


class G(object):
    """Global session (set by the verifier)."""
    ctx = None


def ctx():
    return G.ctx


def I(x):
    """Normal form of integer values: python int when constant."""
    if isinstance(x, Poly):
        return x.const() if x.is_const() else x
    return x


# ------------------------------------------------------------------ dimensions
class S(object):
    __slots__ = ('n',)
    r = False

    def __init__(self, n):
        self.n = P(n)

    @property
    def key(self):
        return 'S(%s)' % self.n.key

    def subst(self, mp):
        return S(self.n.subst(mp))

    def size(self):
        return self.n


class R(object):
    __slots__ = ('c', 'v', 'd')
    r = True

    def __init__(self, c, v, d):
        self.c = P(c)
        self.v = v
        self.d = tuple(d)

    @property
    def key(self):
        return 'R(%s,%s)' % (self.c.key, dkey(dsubst(self.d, {self.v: V('%')})))

    def subst(self, mp):
        if self.v in mp:
            mp = {k: x for k, x in mp.items() if k != self.v}
        v = self.v
        if any(v in P(x).vars() for x in mp.values()):
            w = fresh('r')
            return R(self.c.subst(mp), w, dsubst(dsubst(self.d, {v: V(w)}), mp))
        return R(self.c.subst(mp), v, dsubst(self.d, mp))

    def at(self, blk):
        return dsubst(self.d, {self.v: P(blk)})

    def size(self):
        s = dsize(self.d)
        if self.v not in s.vars():
            return self.c * s
        # sum of block sizes: an uninterpreted function of the count
        return Poly({(App('psum:' + s.subst({self.v: V('%')}).key, [self.c]),): 1})


def dkey(d):
    return '+'.join(s.key for s in d) or '0'


def dsubst(d, mp):
    return tuple(s.subst(mp) for s in d)


def dsize(d):
    n = P(0)
    for s in d:
        n = n + s.size()
    return n


def seglist(d):
    """Drop empty segments; merge nothing."""
    out = []
    for s in d:
        if not s.r and s.n.is_const() and s.n.const() == 0:
            continue
        if s.r and s.c.is_const() and s.c.const() == 0:
            continue
        if s.r and s.c.is_const() and s.c.const() == 1:
            out += list(s.at(0))
            continue
        if s.r and len(s.d) == 1 and not s.d[0].r and s.d[0].n == P(1):
            out.append(S(s.c))
            continue
        out.append(s)
    return tuple(out)


def D(n):
    """Dimension of a plain size."""
    n = P(n)
    if n.is_const() and n.const() == 0:
        return ()
    return (S(n),)


def dzero(d):
    return ctx().int_zero(dsize(d)) is True


# locs
def loc_leaves(l):
    if len(l) == 2:
        return [l[1]]
    return [l[1]] + loc_leaves(l[2])


def loc_shape(l):
    if len(l) == 2:
        return (l[0],)
    return (l[0], loc_shape(l[2]))


def loc_build(sh, leaves):
    """leaves: list consumed from the front"""
    if len(sh) == 1:
        return (sh[0], leaves.pop(0))
    b = leaves.pop(0)
    return (sh[0], b, loc_build(sh[1], leaves))


def loc_subst(l, mp):
    if len(l) == 2:
        return (l[0], P(l[1]).subst(mp))
    return (l[0], P(l[1]).subst(mp), loc_subst(l[2], mp))


def loc_key(l):
    if len(l) == 2:
        return '%d.%s' % (l[0], l[1].key)
    return '%d.%s/%s' % (l[0], l[1].key, loc_key(l[2]))


def flat(d, l):
    """Integer index of a loc."""
    n = P(0)
    for s in d[:l[0]]:
        n = n + s.size()
    s = d[l[0]]
    if not s.r:
        return n + l[1]
    inner = dsize(s.d)
    if s.v in inner.vars():
        off = Poly({(App('psum:' + inner.subst({s.v: V('%')}).key, [P(l[1])]),): 1})
    else:
        off = inner * l[1]
    return n + off + flat(s.at(l[1]), l[2])


def generic_locs(d, prefix='g', name=None):
    """One generic loc per leaf segment: list of (loc, [(var, size)])."""
    out = []
    for k, s in enumerate(d):
        if not s.r:
            v = fresh(prefix, s.n)
            out.append(((k, V(v)), [(v, s.n)]))
        else:
            b = fresh(prefix, s.c)
            for l, vs in generic_locs(s.at(V(b)), prefix):
                out.append(((k, V(b), l), [(b, s.c)] + vs))
    return out


def loc_of_index(d, i):
    """loc of an integer index if it can be decided, else None.  i: Poly"""
    i = P(i)
    c = ctx()
    base = P(0)
    for k, s in enumerate(d):
        n = s.size()
        lo = c.int_nonneg(i - base)
        if lo is not True:
            return None
        hi = c.int_nonneg(base + n - 1 - i)
        if hi is True:
            if not s.r:
                return (k, i - base)
            inner = dsize(s.d)
            if s.v in inner.vars():
                return None
            q = polydivmod(i - base, inner)
            if q is None:
                return None
            b, rem = q
            if c.int_nonneg(rem) is True and c.int_nonneg(inner - 1 - rem) is True:
                l = loc_of_index(s.at(b), rem)
                return None if l is None else (k, b, l)
            return None
        if hi is None:
            return None
        base = base + n
    return None


def polydivmod(p, n):
    """p = q n + r with r containing no multiple of n's leading monomial; None if impossible."""
    n = P(n)
    if n.is_const():
        c = n.const()
        if c == 0:
            return None
        if c == 1:
            return p, P(0)
        q = {}
        r = {}
        for m, x in p.t.items():
            if x % c == 0:
                q[m] = x // c
            else:
                r[m] = x
        return Poly(q), Poly(r)
    # leading monomial: longest, then by key
    lead = max(n.t, key=lambda m: (len(m), str(m)))
    lc = n.t[lead]
    q, r = P(0), P(0)
    rest = p
    for _ in range(50):
        hit = None
        for m, x in rest.t.items():
            mm = list(m)
            ok = True
            for v in lead:
                if v in mm:
                    mm.remove(v)
                else:
                    ok = False
                    break
            if ok and x % lc == 0:
                hit = Poly({tuple(mm): x // lc})
                break
        if hit is None:
            return q, rest
        q = q + hit
        rest = rest - hit * n
    return None


# ------------------------------------------------------------------ alignment of two dimensions
class _Cur(object):
    """Cursor over the segments of a dimension; each pending piece has a map from its loc to the dimension's loc."""

    def __init__(self, d):
        self.items = []
        for k, s in enumerate(d):
            self.items.append((s, self._root(k)))

    @staticmethod
    def _root(k):
        def f(sub):
            return (k,) + sub
        return f

    def head(self):
        c = ctx()
        while self.items:
            s, f = self.items[0]
            n = s.c if s.r else s.n
            if c.int_zero(n) is True:
                self.items.pop(0)
                continue
            return s, f
        return None


def align(d1, d2):
    """Common refinement.  Returns (dim, map1, map2): map_i takes a loc of the common dim to a loc of d_i.
    Raises PyRaise(ValueError) on the path where the sizes differ."""
    if dkey(d1) == dkey(d2):
        return d1, (lambda l: l), (lambda l: l)
    c = ctx()
    n1, n2 = dsize(d1), dsize(d2)
    if not c.branch(lg.IEq(n1, n2)):
        raise PyRaise('ValueError', 'shapes not aligned')
    if len(d1) == 1 and len(d2) == 1 and not d1[0].r and not d2[0].r:
        return d1, (lambda l: l), (lambda l: l)
    segs, m1, m2 = [], [], []
    _align(_Cur(d1), _Cur(d2), segs, m1, m2)
    segs = tuple(segs)
    return segs, (lambda l: m1[l[0]](l[1:])), (lambda l: m2[l[0]](l[1:]))


def _align(c1, c2, segs, m1, m2, total=True):
    """Pieces: (seg, f) with f: sub-loc tuple ((off,) or (blk, loc)) -> loc."""
    c = ctx()
    guard = 0
    while True:
        guard += 1
        if guard > 60:
            raise Unsupported('alignment does not terminate')
        h1, h2 = c1.head(), c2.head()
        if h1 is None or h2 is None:
            if h1 is None and h2 is None:
                return
            rest = c1.items if h1 is not None else c2.items
            # the sizes are equal: what is left is empty
            if all(c.int_zero(s.size()) is True for s, _ in rest):
                return
            raise Unsupported('alignment leaves a remainder %s' % dkey([s for s, _ in rest]))
        (s1, f1), (s2, f2) = h1, h2
        if not s1.r and not s2.r:
            df = s2.n - s1.n
            if c.int_zero(df) is True:
                segs.append(s1)
                m1.append(f1)
                m2.append(f2)
                c1.items.pop(0)
                c2.items.pop(0)
            elif c.int_nonneg(df) is True:
                _split_emit(c2, s1.n, s2, f2)
            elif c.int_nonneg(-df) is True:
                _split_emit(c1, s2.n, s1, f1)
            elif total and c.branch(lg.IEq(s1.n, s2.n)):
                continue
            elif total:
                c.branch(lg.ILe(s1.n, s2.n))
                if c.int_nonneg(df) is not True and c.int_nonneg(-df) is not True:
                    raise Unsupported('cannot compare segment sizes %s and %s' % (s1.n, s2.n))
            else:
                raise Unsupported('cannot compare segment sizes %s and %s' % (s1.n, s2.n))
            continue
        if s1.r and s2.r:
            i1, i2 = dsize(s1.d), dsize(s2.d)
            same_inner = c.int_zero(i1.subst({s1.v: V(s2.v)}) - i2) is True
            if same_inner:
                df = s2.c - s1.c
                if c.int_zero(df) is True:
                    v = fresh('r')
                    RANGES[v] = s1.c
                    dd, a, b = align_nobranch(s1.at(V(v)), s2.at(V(v)))
                    segs.append(R(s1.c, v, dd))
                    m1.append(_rmap(f1, a, v))
                    m2.append(_rmap(f2, b, v))
                    c1.items.pop(0)
                    c2.items.pop(0)
                    continue
                if c.int_nonneg(df) is True:
                    _split_r(c2, s1.c, s2, f2)
                    continue
                if c.int_nonneg(-df) is True:
                    _split_r(c1, s2.c, s1, f1)
                    continue
            # different grouping: nested blocks R(c, R(k, x)) against R(c k, x)
            q = polydivmod(i1, i2) if not (i1.vars() & {s1.v}) and not (i2.vars() & {s2.v}) else None
            if q is not None and q[1] == P(0):
                _group(c2, q[0], s2, f2)
                continue
            q = polydivmod(i2, i1) if not (i1.vars() & {s1.v}) and not (i2.vars() & {s2.v}) else None
            if q is not None and q[1] == P(0):
                _group(c1, q[0], s1, f1)
                continue
            raise Unsupported('cannot align blocks %s and %s' % (s1.key, s2.key))
        # one block segment, one plain
        if s1.r:
            _r_vs_s(c1, s1, f1, c2, s2, f2)
        else:
            _r_vs_s(c2, s2, f2, c1, s1, f1)


def align_nobranch(d1, d2):
    if dkey(d1) == dkey(d2):
        return d1, (lambda l: l), (lambda l: l)
    segs, m1, m2 = [], [], []
    _align(_Cur(d1), _Cur(d2), segs, m1, m2, total=False)
    return tuple(segs), (lambda l: m1[l[0]](l[1:])), (lambda l: m2[l[0]](l[1:]))


def _rmap(f, a, v):
    def g(sub):
        blk, l = sub
        # a was computed at the generic block v
        l2 = a(l)
        return f((blk, loc_subst(l2, {v: P(blk)}) if v in _loc_vars(l2) else l2))
    return g


def _loc_vars(l):
    s = set()
    for p in loc_leaves(l):
        s |= p.vars()
    return s


def _split_emit(cur, n, s, f):
    """Split a plain piece into n and the rest."""
    cur.items[0:1] = [(S(n), f), (S(s.n - n), lambda sub: f((sub[0] + n,)))]


def _split_r(cur, n, s, f):
    v = fresh('r')
    cur.items[0:1] = [(R(n, s.v, s.d), f),
                      (R(s.c - n, v, dsubst(s.d, {s.v: V(v) + n})), lambda sub: f((sub[0] + n,) + sub[1:]))]


def _group(cur, k, s, f):
    """R(c, d) with d independent of the block seen as R(c / k, R(k, d))."""
    c = ctx()
    q = polydivmod(s.c, k)
    if q is None or q[1] != P(0):
        raise Unsupported('cannot regroup %s by %s' % (s.key, k))
    v = fresh('r')
    cur.items[0:1] = [(R(q[0], v, (R(k, s.v, s.d),)), lambda sub: f((sub[0] * k + sub[1][1], sub[1][2])))]


def _peel_first(cur, s, f):
    """First block out of an R piece."""
    d0 = s.at(0)
    v = fresh('r')
    items = []
    for k, x in enumerate(d0):
        items.append((x, (lambda sub, k=k: f((P(0), (k,) + sub)))))
    items.append((R(s.c - 1, v, dsubst(s.d, {s.v: V(v) + 1})), lambda sub: f((sub[0] + 1,) + sub[1:])))
    cur.items[0:1] = items


def _r_vs_s(cr, sr, fr, cs, ss, fs):
    """Block piece of cursor cr against plain piece of cursor cs."""
    c = ctx()
    inner = dsize(sr.d)
    if sr.v not in inner.vars():
        tot = sr.c * inner
        df = ss.n - tot
        if c.int_zero(df) is True:
            v = fresh('r')
            cs.items[0:1] = [(R(sr.c, v, (S(inner),)), lambda sub: fs((sub[0] * inner + sub[1][1],)))]
            return
        if c.int_nonneg(df) is True:
            _split_emit(cs, tot, ss, fs)
            return
        # the plain piece is a whole number of blocks
        q = polydivmod(ss.n, inner)
        if q is not None and q[1] == P(0) and c.int_nonneg(sr.c - q[0]) is True:
            _split_r(cr, q[0], sr, fr)
            return
    elif c.int_zero(ss.n - sr.size()) is True:
        # blocks of different sizes: block b starts at the sum of the sizes before it
        v = fresh('r')
        key = 'psum:' + inner.subst({sr.v: V('%')}).key
        cs.items[0:1] = [(R(sr.c, v, (S(inner.subst({sr.v: V(v)})),)),
                          lambda sub: fs((Poly({(App(key, [P(sub[0])]),): 1}) + sub[1][1],)))]
        return
    elif c.int_nonneg(ss.n - sr.size()) is True:
        _split_emit(cs, sr.size(), ss, fs)
        return
    if c.int_nonneg(sr.c - 1) is True:
        _peel_first(cr, sr, fr)
        return
    raise Unsupported('cannot align %s with %s' % (sr.key, ss.key))


def split_dim(d, n):
    """Split a dimension after n entries: returns (d_lo, map_lo, d_hi, map_hi) (maps: sub-dimension loc -> loc)."""
    c = ctx()
    n = P(n)
    lo, mlo = [], []
    items = _Cur(d).items
    left = n
    guard = 0
    while True:
        guard += 1
        if guard > 60:
            raise Unsupported('split does not terminate')
        if c.int_zero(left) is True:
            break
        if not items:
            raise Unsupported('split beyond the end')
        s, f = items[0]
        df = left - s.size()
        if c.int_nonneg(df) is True:
            lo.append(s)
            mlo.append(f)
            items.pop(0)
            left = df
            continue
        if c.int_nonneg(-df) is not True:
            raise Unsupported('cannot locate the cut %s in %s' % (n, dkey(d)))
        if not s.r:
            cur = _Cur(())
            cur.items = items
            _split_emit(cur, left, s, f)
            continue
        inner = dsize(s.d)
        cur = _Cur(())
        cur.items = items
        if s.v not in inner.vars():
            q = polydivmod(left, inner)
            if q is not None and q[0] != P(0) and c.int_nonneg(q[0]) is True and c.int_nonneg(s.c - q[0]) is True and c.int_nonneg(q[1]) is True:
                _split_r(cur, q[0], s, f)
                continue
        else:
            # prefix sum of block sizes
            ap = left.single()
            want = 'psum:' + inner.subst({s.v: V('%')}).key
            if isinstance(ap, App) and ap.name == want:
                _split_r(cur, ap.args[0], s, f)
                continue
        if c.int_nonneg(s.c - 1) is True:
            _peel_first(cur, s, f)
            continue
        raise Unsupported('cannot cut blocks %s at %s' % (s.key, left))
    hi, mhi = [s for s, _ in items], [f for _, f in items]
    return (tuple(lo), (lambda l: mlo[l[0]](l[1:])), tuple(hi), (lambda l: mhi[l[0]](l[1:])))


# ------------------------------------------------------------------ values
class Val(object):
    """Immutable array value."""

    def __init__(self, dims, fn, dtype='float', boolean=False):
        self.dims = tuple(tuple(d) for d in dims)
        self.fn = fn
        self.dtype = dtype
        self.boolean = boolean
        self._cache = {}
        self._epoch = None
        self._gen = {}

    @property
    def ndim(self):
        return len(self.dims)

    def at(self, *locs):
        e = ctx().epoch
        if self._epoch != e:
            self._cache = {}
            self._gen = {}
            self._epoch = e
        k = '|'.join(loc_key(l) for l in locs)
        r = self._cache.get(k)
        if r is None:
            r = self.fn(*locs)
            self._cache[k] = r
        return r

    def generic(self, locs):
        """Element at locs through a cached generic element of the same structure (used for substitution)."""
        e = ctx().epoch
        if self._epoch != e:
            self._cache = {}
            self._gen = {}
            self._epoch = e
        sh = tuple(loc_shape(l) for l in locs)
        g = self._gen.get(sh)
        if g is None:
            gl, names = [], []
            for d, s in zip(self.dims, sh):
                l, vs = _generic_of_shape(d, s)
                gl.append(l)
                names += vs
            g = (names, self.fn(*gl))
            self._gen[sh] = g
        return g, [p for l in locs for p in loc_leaves(l)]

    def close(self, mp):
        """Value with index variables replaced."""
        def fn(*locs):
            (names, t), leaves = self.generic(locs)
            m2 = dict(mp)
            for n, p in zip(names, leaves):
                m2[n] = P(p)
            return t.subst(m2)
        return Val([dsubst(d, mp) for d in self.dims], fn, self.dtype, self.boolean)


def _generic_of_shape(d, sh):
    s = d[sh[0]]
    if len(sh) == 1:
        v = fresh('g', s.n)
        return (sh[0], V(v)), [v]
    b = fresh('g', s.c)
    l, vs = _generic_of_shape(s.at(V(b)), sh[1])
    return (sh[0], V(b), l), [b] + vs


class Cell(object):
    """Storage of a numpy array."""
    _n = 0

    def __init__(self, val, owner=None):
        Cell._n += 1
        self.id = Cell._n
        self.val = val
        self.owner = owner
        self.frozen = False

    def set(self, val):
        old = self.val
        c = ctx()
        if self.frozen:
            raise Unsupported('write to an array that is an element of a symbolic list')
        c.record(lambda: setattr(self, 'val', old))
        self.val = val
        c.mutated(('cell', self, None))


class Arr(object):
    """numpy.ndarray: a cell and (for views) an element map into it."""

    def __init__(self, val=None, cell=None, dims=None, vmap=None):
        if cell is None:
            cell = Cell(val)
        self.cell = cell
        self._dims = dims
        self.vmap = vmap            # None: whole cell; else locs of this array -> locs of the cell's array

    @property
    def dims(self):
        return self.cell.val.dims if self.vmap is None else self._dims

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def dtype(self):
        return self.cell.val.dtype

    @property
    def boolean(self):
        return self.cell.val.boolean

    def val(self):
        """Snapshot."""
        v = self.cell.val
        if self.vmap is None:
            return v
        m = self.vmap
        return Val(self._dims, lambda *locs: v.at(*m(*locs)), v.dtype, v.boolean)

    def at(self, *locs):
        return self.val().at(*locs)

    def shape(self):
        return tuple(I(dsize(d)) for d in self.dims)

    def size(self):
        n = P(1)
        for d in self.dims:
            n = n * dsize(d)
        return I(n)


def mk(dims, fn, dtype='float', boolean=False):
    return Arr(Val(dims, fn, dtype, boolean))


def inputarr(name, *sizes, **kw):
    """Symbolic array of atoms; sizes are polynomials or Dims."""
    dims = [D(s) if not isinstance(s, tuple) else s for s in sizes]

    def fn(*locs):
        # one atom per leaf structure; plain dims share the array's name
        nm = name
        idx = []
        for d, l in zip(dims, locs):
            if len(d) > 1 or (d and d[0].r):
                idx.append(flat(d, l))
            else:
                idx.append(l[1])
        return Term.atom(nm, *idx)
    if kw.get('sym'):
        tm.ATOMS.sym.add(name)
    return Arr(Val(dims, fn, kw.get('dtype', 'float')))


def scalar_atom(name):
    return Term.atom(name)


# ------------------------------------------------------------------ element access by integer index
def at_index(v, dimno, i, others):
    """Element of Val v with integer index i in dimension dimno and locs in the others."""
    d = v.dims[dimno]
    l = loc_of_index(d, i)
    if l is not None:
        locs = list(others)
        locs.insert(dimno, l)
        return v.at(*locs)
    # case distinction over plain segments
    base = P(0)
    r = FALSE if v.boolean else T(0)
    for k, s in enumerate(d):
        if s.r:
            raise Unsupported('symbolic index into blocks')
        locs = list(others)
        locs.insert(dimno, (k, P(i) - base))
        cond = []
        if k > 0:
            cond.append(lg.ILe(base, i))
        if k < len(d) - 1:
            cond.append(lg.ILt(i, base + s.n))
        x = v.at(*locs)
        if v.boolean:
            r = Or(r, And(x, *cond))
        else:
            r = r + indicator(And(*cond)) * x
        base = base + s.n
    return r


def sum_over(d, fn, tag=None):
    """Sum of fn(loc) over all locs of a dimension."""
    r = T(0)
    for l, vs in generic_locs(d, 'h'):
        t = fn(l)
        for v, n in reversed(vs):
            t = T(t).sum(v, n)
        r = r + t
    return r


def forall_over(dims, fn):
    """Conjunction of fn(locs) over all locs."""
    def go(ds, locs, vs):
        if not ds:
            return Forall(vs, fn(*locs)) if vs else fn(*locs)
        return And(*[go(ds[1:], locs + [l], vs + w) for l, w in generic_locs(ds[0], 'f')])
    return go(list(dims), [], [])


def dot(a, b):
    """numpy dot of Vals."""
    if a.ndim == 0 or b.ndim == 0:
        raise Unsupported('dot of scalars')
    ka = a.ndim - 1
    kb = 0 if b.ndim == 1 else b.ndim - 2
    d, ma, mb = align(a.dims[ka], b.dims[kb])
    gl = [(l, ma(l), mb(l), vs) for l, vs in generic_locs(d, 'h')]
    na, nb = a.ndim - 1, b.ndim - 1

    def fn(*locs):
        la, lb = list(locs[:na]), list(locs[na:])
        r = T(0)
        for l, l1, l2, vs in gl:
            x = a.at(*(la + [l1]))
            if x.is_zero():
                continue
            lbb = list(lb)
            lbb.insert(kb, l2)
            y = b.at(*lbb)
            if y.is_zero():
                continue
            t = x * y
            for v, n in reversed(vs):
                t = t.sum(v, n)
            r = r + t
        return r
    dims = list(a.dims[:ka]) + [x for k, x in enumerate(b.dims) if k != kb]
    dt = 'float' if 'float' in (a.dtype, b.dtype) else a.dtype
    if not dims:
        return fn()
    return Val(dims, fn, dt)


def is_one(d):
    return ctx().int_zero(dsize(d) - 1) is True


def broadcast(vals):
    """Common dims and per-value loc maps."""
    nd = max(v.ndim for v in vals)
    out = []
    maps = []           # per output dim: list of (map or None when broadcast) per value
    for k in range(nd):
        ds = []
        for v in vals:
            j = k - (nd - v.ndim)
            ds.append(None if j < 0 else v.dims[j])
        cur, idx = None, None
        ms = [None] * len(vals)
        for n, d in enumerate(ds):
            if d is None or is_one(d):
                continue
            if cur is None:
                cur = d
                ms[n] = lambda l: l
            else:
                nd_, m1, m2 = align(cur, d)
                if nd_ is not cur:
                    ms = [None if f is None else (lambda l, f=f, m1=m1: f(m1(l))) for f in ms]
                ms[n] = m2
                cur = nd_
        if cur is None:
            cur = D(1)
        out.append(cur)
        maps.append(ms)

    def locs_for(n, v, locs):
        r = []
        for k in range(nd - v.ndim, nd):
            f = maps[k][n]
            if f is None:
                d = v.dims[k - (nd - v.ndim)]
                r.append(first_loc(d))
            else:
                r.append(f(locs[k]))
        return r
    return out, locs_for


def first_loc(d):
    for k, s in enumerate(d):
        if not s.r:
            return (k, P(0))
        return (k, P(0), first_loc(s.at(0)))
    raise PyRaise('IndexError')


def elementwise(op, *vals, **kw):
    vals = [v if isinstance(v, Val) else Val((), lambda v=v: v) for v in vals]
    dims, locs_for = broadcast(vals)

    def fn(*locs):
        return op(*[v.at(*locs_for(n, v, locs)) for n, v in enumerate(vals)])
    dt = 'float' if any(v.dtype == 'float' for v in vals) else vals[0].dtype
    return Val(dims, fn, kw.get('dtype', dt), kw.get('boolean', False))


def concat(vals, axis):
    """Concatenation of Vals or families.  vals: list of Val or ('fam', count, var, Val generic in var)."""
    first = next((v if isinstance(v, Val) else v[3]) for v in vals)
    nd = first.ndim
    # align the other dimensions
    others = [None] * nd
    maps = [[None] * nd for _ in vals]
    for k in range(nd):
        if k == axis:
            continue
        cur = None
        for n, v in enumerate(vals):
            d = (v if isinstance(v, Val) else v[3]).dims
            if len(d) != nd:
                raise PyRaise('ValueError', 'dimensions do not match')
            if cur is None:
                cur = d[k]
                maps[n][k] = lambda l: l
            else:
                new, m1, m2 = align(cur, d[k])
                if new is not cur:
                    for j in range(n):
                        f = maps[j][k]
                        maps[j][k] = (lambda l, f=f, m1=m1: f(m1(l)))
                maps[n][k] = m2
                cur = new
        others[k] = cur
    segs, where = [], []
    for n, v in enumerate(vals):
        if isinstance(v, Val):
            if v.ndim != nd:
                raise PyRaise('ValueError', 'dimensions do not match')
            for k, s in enumerate(v.dims[axis]):
                segs.append(s)
                where.append((n, k))
        else:
            _, cnt, var, g = v
            d = g.dims[axis]
            if len(d) == 1 and not d[0].r and d[0].n == P(1):
                segs.append(S(cnt))
                where.append((n, 'one'))
            elif not d:
                continue
            else:
                segs.append(R(cnt, var, d))
                where.append((n, 'fam'))
    segs = tuple(segs)

    def fn(*locs):
        l = locs[axis]
        n, k = where[l[0]]
        v = vals[n]
        ls = []
        for j in range(nd):
            if j == axis:
                ls.append(None)
            else:
                ls.append(maps[n][j](locs[j]))
        if isinstance(v, Val):
            ls[axis] = (k,) + tuple(l[1:])
            return v.at(*ls)
        _, cnt, var, g = v
        if k == 'one':
            ls[axis] = (0, P(0))
            blk = l[1]
        else:
            ls[axis] = l[2]
            blk = l[1]
        return fam_at(g, var, blk, ls)
    dims = list(others)
    dims[axis] = segs
    dt = 'float' if any((v if isinstance(v, Val) else v[3]).dtype == 'float' for v in vals) else first.dtype
    return Val(dims, fn, dt, first.boolean)


def fam_at(g, var, blk, locs):
    """Element of a family member: generic value g (in index variable var) at block blk."""
    (names, t), leaves = g.generic(locs)
    mp = {var: P(blk)}
    for n, p in zip(names, leaves):
        mp[n] = P(p)
    return t.subst(mp)


def block_diag(vals):
    """scipy.linalg.block_diag of Vals or families."""
    rows, cols, where = [], [], []
    for n, v in enumerate(vals):
        g = v if isinstance(v, Val) else v[3]
        if g.ndim == 1:
            g1 = g
            g = Val([D(1), g1.dims[0]], (lambda a, b, g1=g1: g1.at(b)), g1.dtype)
            vals[n] = v = g if isinstance(v, Val) else v[:3] + (g,)
        if isinstance(v, Val):
            r0, c0 = len(rows), len(cols)
            rows += [(s, n, k) for k, s in enumerate(g.dims[0])]
            cols += [(s, n, k) for k, s in enumerate(g.dims[1])]
        else:
            _, cnt, var, _ = v
            if g.dims[0]:
                rows.append((R(cnt, var, g.dims[0]), n, 'fam'))
            if g.dims[1]:
                cols.append((R(cnt, var, g.dims[1]), n, 'fam'))
    rd = tuple(s for s, _, _ in rows)
    cd = tuple(s for s, _, _ in cols)

    def fn(lr, lc):
        _, n1, k1 = rows[lr[0]]
        _, n2, k2 = cols[lc[0]]
        if n1 != n2:
            return T(0)
        v = vals[n1]
        if isinstance(v, Val):
            return v.at((k1,) + tuple(lr[1:]), (k2,) + tuple(lc[1:]))
        _, cnt, var, g = v
        t = fam_at(g, var, lr[1], [lr[2], lc[2]])
        return Term.delta(P(lr[1]) - P(lc[1])) * t
    return Val([rd, cd], fn)
