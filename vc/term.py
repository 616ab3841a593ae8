"""Real-valued terms over tensors with symbolic indices, kept in a canonical sum-of-products form.

A term is a finite sum of monomials; a monomial is a rational coefficient times a (possibly nested)
finite sum over bound indices of a product of factors.  A factor is an atom (tensor entry) with integer
polynomial indices and an integer power, or a Kronecker delta.  Two terms with the same canonical form
are equal for all values of the tensors and all sizes.
"""
from fractions import Fraction
from itertools import permutations, product
from .poly import Poly, P, V

DELTA = 'delta!'      # [p == 0]
GE = 'ge!'            # [p >= 0]
INTF = 'int!'


class F(object):
    __slots__ = ('name', 'idx', 'pw', 'key')

    def __init__(self, name, idx=(), pw=1):
        self.name = name
        self.idx = tuple(idx)
        self.pw = pw
        ks = [i.key for i in self.idx]
        if len(ks) == 2 and name in ATOMS.sym:
            if ks[0] > ks[1]:
                ks.reverse()
                self.idx = (self.idx[1], self.idx[0])
        self.key = name + ('[' + ';'.join(ks) + ']' if ks else '') + ('^%d' % pw if pw != 1 else '')

    def vars(self):
        s = set()
        for i in self.idx:
            s |= i.vars()
        return s

    def subst(self, mp):
        return F(self.name, [i.subst(mp) for i in self.idx], self.pw)

    def __repr__(self):
        return self.key


class Atoms(object):
    """Registry of per-run atom information."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.sym = set()      # symmetric two-index atoms
        self.idem = set()     # 0/1 valued atoms
        self.square = {}      # name -> function of the indices giving the square of the atom as a Term


ATOMS = Atoms()
_fresh = [0]


def fresh_bound():
    _fresh[0] += 1
    return 'b~%d' % _fresh[0]


class Mono(object):
    """bound: tuple of (name, size Poly); factors: tuple of F.  Canonical after canon()."""
    __slots__ = ('bound', 'factors', 'key', '_comps')

    def __init__(self, bound, factors, key=None):
        self.bound = bound
        self.factors = factors
        self.key = key
        self._comps = None

    def rename_apart(self):
        if not self.bound:
            return self.bound, self.factors
        mp = {}
        nb = []
        for v, s in self.bound:
            mp[v] = V(fresh_bound())
        for v, s in self.bound:
            nb.append((mp[v].single(), s.subst(mp)))
        return tuple(nb), tuple(f.subst(mp) for f in self.factors)


def _canon_comp(bound, factors):
    """Canonical form of one connected component: returns (key, bound, factors)."""
    if not bound:
        f, = factors
        return f.key, (), factors
    bvs = [v for v, _ in bound]
    sizes = dict(bound)
    mask = {v: V('@') for v in bvs}

    def color(v):
        m2 = dict(mask)
        m2[v] = V('@@')
        cols = sorted(f.name + '^%d' % f.pw + ';'.join(sorted(i.subst(m2).key for i in f.idx) if f.name in ATOMS.sym
                                                      else [i.subst(m2).key for i in f.idx])
                      for f in factors if v in f.vars())
        return (sizes[v].subst(mask).key, cols, sorted(s.subst(m2).key for w, s in bound if v in s.vars()))
    groups = {}
    for v in bvs:
        groups.setdefault(repr(color(v)), []).append(v)
    keys = sorted(groups)
    best = None
    for combo in product(*[list(permutations(groups[k])) for k in keys]):
        order = [v for g in combo for v in g]
        mp = {v: V('_%d' % i) for i, v in enumerate(order)}
        fs = sorted((f.subst(mp) for f in factors), key=lambda f: f.key)
        nb = tuple(('_%d' % i, sizes[v].subst(mp)) for i, v in enumerate(order))
        key = 'S{' + ','.join(s.key for _, s in nb) + '}' + ' '.join(f.key for f in fs)
        if best is None or key < best[0]:
            best = (key, nb, tuple(fs))
    return best


def components(bound, factors):
    """Split a monomial into connected components (by shared bound indices)."""
    bvs = {v for v, _ in bound}
    sizes = dict(bound)
    parent = {v: v for v in bvs}

    def find(v):
        while parent[v] != v:
            v = parent[v]
        return v

    def union(vs):
        vs = list(vs)
        for w in vs[1:]:
            parent[find(w)] = find(vs[0])
    for f in factors:
        union(f.vars() & bvs)
    for v in bvs:
        union({v} | (sizes[v].vars() & bvs))
    comps = {}
    single = []
    for f in factors:
        vs = f.vars() & bvs
        if not vs:
            single.append(f)
        else:
            comps.setdefault(find(next(iter(vs))), []).append(f)
    out = []
    for f in single:
        out.append(((), (f,)))
    for r in {find(v) for v in bvs}:
        b = tuple((v, s) for v, s in bound if find(v) == r)
        out.append((b, tuple(comps.get(r, ()))))
    return out


class Term(object):
    __slots__ = ('m',)

    def __init__(self, m=None):
        self.m = m or {}          # key -> (Mono, Fraction)

    # ---- construction
    @staticmethod
    def const(c):
        c = Fraction(c)
        if c == 0:
            return Term()
        return Term({'': (Mono((), (), ''), c)})

    @staticmethod
    def atom(name, *idx):
        return Term.make([(((), (F(name, [P(i) for i in idx]),)), Fraction(1))])

    @staticmethod
    def from_int(p):
        """An integer polynomial as a real term."""
        p = P(p)
        r = Term()
        for mon, c in p.t.items():
            x = Term.const(c)
            for v in mon:
                x = x * Term.make([(((), (F(INTF, [Poly({(v,): 1})]),)), Fraction(1))])
            r = r + x
        return r

    @staticmethod
    def delta(p):
        return Term.make([(((), (F(DELTA, [P(p)]),)), Fraction(1))])

    @staticmethod
    def ge(p):
        """0/1 term: p >= 0."""
        return Term.make([(((), (F(GE, [P(p)]),)), Fraction(1))])

    @staticmethod
    def make(parts):
        """parts: list of ((bound, factors), coef); normalizes."""
        acc = {}
        work = [(b, f, c) for (b, f), c in parts]
        rules = ENGINE.rules()
        while work:
            b, f, c = work.pop()
            r = simp(b, f)
            if r is None:
                continue
            b, f, mult = r
            if mult is not None:
                # symbolic integer multiplicities: multiply out
                t = Term.make([((b, f), c)])
                for p in mult:
                    t = t * Term.from_int(p)
                for k, (m, cc) in t.m.items():
                    _add(acc, k, m, cc)
                continue
            # rewrite rules
            hit = None
            if rules:
                for rule in rules:
                    hit = rule(b, f)
                    if hit is not None:
                        break
            if hit is not None:
                for (b2, f2), c2 in hit:
                    work.append((b2, f2, c * c2))
                continue
            cs = [_canon_comp(bb, ff) if ff else ('S{' + ','.join(s.key for _, s in bb) + '}', bb, ff)
                  for bb, ff in components(b, f)]
            # merge powers of equal scalar factors (no bound variables)
            pw = {}
            rest = []
            for k, bb, ff in cs:
                if not bb:
                    g = ff[0]
                    kk = (g.name, tuple(i.key for i in g.idx))
                    if kk in pw:
                        pw[kk] = (g, pw[kk][1] + g.pw)
                    else:
                        pw[kk] = (g, g.pw)
                else:
                    rest.append((k, bb, ff))
            fin = []
            sq = []
            for g, n in pw.values():
                if n > 1 and (g.name in ATOMS.idem or g.name in (DELTA, GE)):
                    n = 1
                while n >= 2 and g.name in ATOMS.square:
                    sq.append(ATOMS.square[g.name](*g.idx))
                    n -= 2
                if n != 0:
                    h = F(g.name, g.idx, n)
                    fin.append((h.key, (), (h,)))
            fin += rest
            if sq:
                t = Term.make([(_join(fin), c)])
                for x in sq:
                    t = t * x
                for k, (m, cc) in t.m.items():
                    _add(acc, k, m, cc)
                continue
            fin.sort(key=lambda x: x[0])
            key = ' | '.join(x[0] for x in fin)
            bound, facs = _join(fin)
            _add(acc, key, Mono(bound, facs, key), c)
        return Term({k: v for k, v in acc.items() if v[1] != 0})

    # ---- algebra
    def __add__(self, o):
        o = T(o)
        m = dict(self.m)
        for k, (mo, c) in o.m.items():
            if k in m:
                cc = m[k][1] + c
                if cc == 0:
                    del m[k]
                else:
                    m[k] = (mo, cc)
            else:
                m[k] = (mo, c)
        return Term(m)
    __radd__ = __add__

    def __neg__(self):
        return Term({k: (mo, -c) for k, (mo, c) in self.m.items()})

    def __sub__(self, o):
        return self + (-T(o))

    def __rsub__(self, o):
        return T(o) - self

    def scale(self, c):
        c = Fraction(c)
        if c == 0:
            return Term()
        return Term({k: (mo, cc * c) for k, (mo, cc) in self.m.items()})

    def __mul__(self, o):
        o = T(o)
        if o.is_const():
            return self.scale(o.constval())
        if self.is_const():
            return o.scale(self.constval())
        parts = []
        for m1, c1 in self.m.values():
            for m2, c2 in o.m.values():
                b1, f1 = m1.rename_apart()
                b2, f2 = m2.rename_apart()
                parts.append(((b1 + b2, f1 + f2), c1 * c2))
        return Term.make(parts)
    __rmul__ = __mul__

    def sum(self, var, size):
        """Sum over bound plain symbol var in [0,size)."""
        parts = []
        for mo, c in self.m.values():
            b, f = mo.rename_apart()
            nv = V(fresh_bound())
            mp = {var: nv}
            parts.append(((tuple((v, s.subst(mp)) for v, s in b) + ((nv.single(), P(size)),),
                           tuple(g.subst(mp) for g in f)), c))
        return Term.make(parts)

    def subst(self, mp):
        parts = []
        for mo, c in self.m.values():
            b, f = mo.rename_apart()
            parts.append(((tuple((v, s.subst(mp)) for v, s in b), tuple(g.subst(mp) for g in f)), c))
        return Term.make(parts)

    def renorm(self):
        return self.subst({})

    # ---- queries
    def is_zero(self):
        return not self.m

    def is_const(self):
        return all(k == '' for k in self.m)

    def constval(self):
        return self.m[''][1] if '' in self.m else Fraction(0)

    def free(self):
        s = set()
        for mo, _ in self.m.values():
            bv = {v for v, _ in mo.bound}
            for f in mo.factors:
                s |= f.vars() - bv
            for _, z in mo.bound:
                s |= z.vars() - bv
        return s

    @property
    def key(self):
        return ' + '.join('%s*%s' % (self.m[k][1], k) for k in sorted(self.m)) or '0'

    def __repr__(self):
        return self.key


def _join(comps):
    """One (bound, factors) pair out of canonical components."""
    bound, facs = [], []
    for n, (k, bb, ff) in enumerate(comps):
        mp = {v: V('%s.%d' % (v, n)) for v, _ in bb}
        bound += [(mp[v].single(), s.subst(mp)) for v, s in bb]
        facs += [g.subst(mp) for g in ff]
    return tuple(bound), tuple(facs)


def _add(acc, k, m, c):
    if k in acc:
        acc[k] = (m, acc[k][1] + c)
    else:
        acc[k] = (m, c)


def T(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, Poly):
        return Term.from_int(x)
    if isinstance(x, bool):
        return Term.const(int(x))
    if isinstance(x, float):
        return Term.const(Fraction(repr(x)))
    return Term.const(x)


def simp(bound, factors):
    """Delta elimination, trivial sums.  Returns (bound, factors, multiplicities or None), or None if zero."""
    bound = list(bound)
    factors = list(factors)
    changed = True
    while changed:
        changed = False
        bvs = {v: s for v, s in bound}
        # empty / unit sums
        for i, (v, s) in enumerate(bound):
            if s.is_const():
                c = s.const()
                if c <= 0:
                    return None
                if c == 1:
                    mp = {v: P(0)}
                    bound = [(w, z.subst(mp)) for w, z in bound if w != v]
                    factors = [f.subst(mp) for f in factors]
                    changed = True
                    break
        if changed:
            continue
        for i, f in enumerate(factors):
            if f.name == INTF and f.idx[0].is_const():
                raise AssertionError('constant int factor')
            if f.name == GE:
                r = _simp_ge(bound, factors, i, f, bvs)
                if r == 'zero':
                    return None
                if r is not None:
                    bound, factors = r
                    changed = True
                    break
                continue
            if f.name != DELTA:
                continue
            p = f.idx[0]
            if f.pw != 1:
                factors[i] = F(DELTA, [p])
                changed = True
                break
            if p.is_const():
                if p.const() != 0:
                    return None
                del factors[i]
                changed = True
                break
            inj = _inj_delta(p)
            if inj is not None:
                factors[i] = F(DELTA, [inj])
                changed = True
                break
            two = _radix_delta(p, bvs)
            if two is not None:
                factors[i:i + 1] = [F(DELTA, [x]) for x in two]
                changed = True
                break
            cand = [v for v in bvs if abs(p.linear_in(v) or 0) == 1]
            done = False
            for v in sorted(cand):
                c = p.linear_in(v)
                e = (V(v) - p * c)          # v = e
                if v in e.vars():
                    continue
                if any(v in s.vars() for s in bvs.values()):
                    continue
                ans = ENGINE.range_check(e, bvs[v], {w: s for w, s in bvs.items() if w != v})
                if ans is True:
                    mp = {v: e}
                    bound = [(w, z.subst(mp)) for w, z in bound if w != v]
                    factors = [g.subst(mp) for j, g in enumerate(factors) if j != i]
                    done = True
                    break
                if ans is False:
                    return None
            if done:
                changed = True
                break
            if not (p.vars() & set(bvs)):
                ans = ENGINE.int_zero(p)
                if ans is True:
                    del factors[i]
                    changed = True
                    break
                if ans is False:
                    return None
            # canonical sign for the key
            q = -p
            if q.key < p.key:
                factors[i] = F(DELTA, [q])
    # bound variables that occur nowhere
    used = set()
    for f in factors:
        used |= f.vars()
    for _, s in bound:
        used |= s.vars()
    mult = [s for v, s in bound if v not in used]
    if mult:
        bad = {v for v, s in bound}
        if all(not (s.vars() & bad) for s in mult):
            bound = [(v, s) for v, s in bound if v in used]
            return tuple(bound), tuple(factors), mult
    return tuple(bound), tuple(factors), None


def _radix_delta(p, bvs):
    """n q + r with |r| < n vanishes exactly when q and r do."""
    if len(p.t) < 2 or not any(len(m) >= 2 for m in p.t):
        return None
    for n in sorted({v for m in p.t if len(m) >= 2 for v in m if isinstance(v, str) and v not in bvs}):
        q, r = {}, {}
        for m, x in p.t.items():
            if n in m:
                mm = list(m)
                mm.remove(n)
                q[tuple(mm)] = x
            else:
                r[m] = x
        q, r = Poly(q), Poly(r)
        if not r.t or q.is_const():
            continue
        used = {w: s for w, s in bvs.items() if w in r.vars()}
        if ENGINE.int_nonneg(V(n) - 1 - r, used) is True and ENGINE.int_nonneg(V(n) - 1 + r, used) is True:
            return q, r
    return None


def _inj_delta(p):
    """phi(k) - phi(k') for an injective phi: k - k'."""
    if len(p.t) != 2:
        return None
    (m1, c1), (m2, c2) = p.t.items()
    if c1 + c2 != 0 or abs(c1) != 1 or len(m1) != 1 or len(m2) != 1:
        return None
    a, b = m1[0], m2[0]
    if isinstance(a, str) or isinstance(b, str) or a.name != b.name or not ENGINE.injective(a.name):
        return None
    if any(x != y for x, y in zip(a.args[:-1], b.args[:-1])):
        return None
    return a.args[-1] - b.args[-1]


def _simp_ge(bound, factors, i, f, bvs):
    p = f.idx[0]
    rest = [g for j, g in enumerate(factors) if j != i]
    if f.pw != 1:
        return bound, rest + [F(GE, [p])]
    if p.is_const():
        return (bound, rest) if p.const() >= 0 else 'zero'
    if any(g.name == GE and g.idx[0] == p for g in rest):
        return bound, rest
    used = p.vars() & set(bvs)
    ans = ENGINE.int_nonneg(p, {w: s for w, s in bvs.items() if w in used} if used else {})
    if ans is True:
        return bound, rest
    if ans is False:
        return 'zero'
    for v in sorted(used):
        c = p.linear_in(v)
        if c not in (1, -1):
            continue
        if any(v in s.vars() for s in bvs.values()):
            continue
        size = bvs[v]
        oth = {w: s for w, s in bvs.items() if w != v}
        if c == -1:
            e = p + V(v) + 1                   # v < e
            if e.vars() & set(bvs):
                # nested range: allowed if the enclosing variables are free of v
                pass
            if ENGINE.int_nonneg(e, oth) is True and ENGINE.int_nonneg(size - e, oth) is True:
                return [(w, (e if w == v else s)) for w, s in bound], rest
        else:
            e = V(v) - p                       # v >= e
            if ENGINE.int_nonneg(e, oth) is True and ENGINE.int_nonneg(size - e, oth) is True:
                mp = {v: V(v) + e}
                return [(w, (size - e if w == v else s)) for w, s in bound], [g.subst(mp) for g in rest]
    return None


class _NoEngine(object):
    def rules(self):
        return []

    def range_check(self, e, size, others):
        return None

    def injective(self, name):
        return False

    def int_zero(self, p):
        return None

    def int_nonneg(self, p, others=None):
        return None


ENGINE = _NoEngine()


def set_engine(e):
    global ENGINE
    ENGINE = e
