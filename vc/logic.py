"""Formulas over integer polynomials and real tensor terms, derived scalars, and translation to z3."""
import hashlib
from fractions import Fraction
import z3
from .poly import Poly, P, V, App
from . import term as tm
from .term import Term, T, F, DELTA, GE, INTF, components

# ------------------------------------------------------------------ formulas


class Fm(object):
    __slots__ = ('op', 'a', '_key')

    def __init__(self, op, *a):
        self.op = op
        self.a = a
        self._key = None

    @property
    def key(self):
        if self._key is None:
            def k(x):
                if isinstance(x, (Fm, Term, Poly)):
                    return x.key
                if isinstance(x, (list, tuple)):
                    return '(' + ','.join(k(y) for y in x) + ')'
                return str(x)
            self._key = self.op + '(' + ','.join(k(x) for x in self.a) + ')'
        return self._key

    def __repr__(self):
        return self.key

    def subst(self, mp):
        if not mp:
            return self
        o = self.op
        if o in ('true', 'false'):
            return self
        if o in ('le', 'lt', 'eq'):
            return _cmp(o, self.a[0].subst(mp))
        if o in ('ile', 'ieq'):
            return _icmp(o, self.a[0].subst(mp))
        if o == 'not':
            return Not(self.a[0].subst(mp))
        if o == 'and':
            return And(*[x.subst(mp) for x in self.a[0]])
        if o == 'or':
            return Or(*[x.subst(mp) for x in self.a[0]])
        if o in ('forall', 'exists'):
            vs, body = self.a
            used = set(mp)
            for p in mp.values():
                used |= P(p).vars()
            ren = {}
            for v, s in vs:
                if v in used:
                    ren[v] = V(fresh('q'))
            if ren:
                vs = [(ren[v].single() if v in ren else v, s) for v, s in vs]
                body = body.subst(ren)
            return Fm(o, tuple((v, s.subst(mp)) for v, s in vs), body.subst(mp))
        if o == 'pred':
            return Fm('pred', self.a[0], tuple(x.subst(mp) for x in self.a[1]))
        raise AssertionError(o)


TRUE = Fm('true')
FALSE = Fm('false')
_n = [0]
TAG = ['']           # branch decisions of the enclosing loop-body exploration (keeps names of different paths apart)
RANGES = {}          # index variable -> size (0 <= v < size)
NONNEG = {}          # dimension symbol -> lower bound


def fresh(prefix='k', size=None):
    _n[0] += 1
    n = '%s~%d%s' % (prefix, _n[0], TAG[0])
    if size is not None:
        RANGES[n] = P(size)
    return n


def reset_names():
    _n[0] = 0
    TAG[0] = ''
    RANGES.clear()
    NONNEG.clear()
    APP_RANGE.clear()
    ATOM_FACTS.clear()
    INJ.clear()
    APP_SIZE.clear()
    tm.ATOMS.reset()
    DERIVED.clear()
    _derived_by_key.clear()


def _cmp(op, t):
    t = T(t)
    if t.is_const():
        c = t.constval()
        return TRUE if {'le': c <= 0, 'lt': c < 0, 'eq': c == 0}[op] else FALSE
    return Fm(op, t)


def _icmp(op, p):
    p = P(p)
    if p.is_const():
        c = p.const()
        return TRUE if (c <= 0 if op == 'ile' else c == 0) else FALSE
    return Fm(op, p)


def Le(a, b):
    return _cmp('le', T(a) - T(b))


def Lt(a, b):
    return _cmp('lt', T(a) - T(b))


def Ge(a, b):
    return Le(b, a)


def Gt(a, b):
    return Lt(b, a)


def Eq(a, b):
    return _cmp('eq', T(a) - T(b))


def ILe(a, b):
    return _icmp('ile', P(a) - P(b))


def ILt(a, b):
    return _icmp('ile', P(a) - P(b) + 1)


def IEq(a, b):
    return _icmp('ieq', P(a) - P(b))


def Not(f):
    if f.op == 'true':
        return FALSE
    if f.op == 'false':
        return TRUE
    if f.op == 'not':
        return f.a[0]
    if f.op == 'le':
        return _cmp('lt', -f.a[0])
    if f.op == 'lt':
        return _cmp('le', -f.a[0])
    if f.op == 'ile':
        return _icmp('ile', 1 - f.a[0])
    if f.op == 'and':
        return Or(*[Not(x) for x in f.a[0]])
    if f.op == 'or':
        return And(*[Not(x) for x in f.a[0]])
    if f.op == 'forall':
        return Fm('exists', f.a[0], Not(f.a[1]))
    if f.op == 'exists':
        return Fm('forall', f.a[0], Not(f.a[1]))
    return Fm('not', f)


def And(*fs):
    out = []
    for f in fs:
        if f.op == 'false':
            return FALSE
        if f.op == 'true':
            continue
        out += list(f.a[0]) if f.op == 'and' else [f]
    d = []
    seen = set()
    for f in out:
        if f.key not in seen:
            seen.add(f.key)
            d.append(f)
    if not d:
        return TRUE
    return d[0] if len(d) == 1 else Fm('and', tuple(d))


def Or(*fs):
    out = []
    for f in fs:
        if f.op == 'true':
            return TRUE
        if f.op == 'false':
            continue
        out += list(f.a[0]) if f.op == 'or' else [f]
    d = []
    seen = set()
    for f in out:
        if f.key not in seen:
            seen.add(f.key)
            d.append(f)
    if not d:
        return FALSE
    return d[0] if len(d) == 1 else Fm('or', tuple(d))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def Forall(vs, body):
    """vs: list of (name, size)."""
    vs = [(v, P(s)) for v, s in vs]
    for v, s in vs:
        if s.is_const() and s.const() <= 0:
            return TRUE
        if s.is_const() and s.const() == 1:
            return Forall([(w, z.subst({v: P(0)})) for w, z in vs if w != v], body.subst({v: P(0)}))
    if not vs or body.op in ('true',):
        return body
    if body.op == 'and':
        return And(*[Forall(vs, x) for x in body.a[0]])
    if body.op == 'forall':
        return Fm('forall', tuple(vs) + body.a[0], body.a[1])
    return Fm('forall', tuple(vs), body)


def Exists(vs, body):
    return Not(Forall(vs, Not(body)))


def Pred(name, *args):
    return Fm('pred', name, tuple(args))


# ------------------------------------------------------------------ abstraction over free indices
def _split(p, bvs):
    """index polynomial -> (bound part, free part)"""
    b, f = {}, {}
    for m, c in p.t.items():
        vs = set()
        for v in m:
            vs |= Poly({(v,): 1}).vars()
        (b if vs & bvs else f)[m] = c
    return Poly(b), Poly(f)


class Abstr(object):
    """Collects free index polynomials as parameters."""

    def __init__(self, fixed=()):
        self.params = []
        self.fixed = set(fixed)

    def param(self, p):
        # one parameter per occurrence: the name must not depend on coincidences between indices
        self.params.append(p)
        return V('%%%d' % (len(self.params) - 1))

    def poly(self, p, bvs):
        b, f = _split(p, bvs)
        if b == P(0):
            return self.param(f)
        if f == P(0):
            return b
        return b + self.param(f)

    def size(self, p, bvs):
        """Sizes stay literal unless they contain index variables."""
        if any(v in RANGES or '~' in v for v in p.vars() - bvs):
            return self.poly(p, bvs)
        return p

    def factor(self, f, bvs):
        return F(f.name, [self.poly(i, bvs) for i in f.idx], f.pw)

    def term(self, t, outer=frozenset()):
        parts = []
        for k in sorted(t.m):
            mo, c = t.m[k]
            bvs = {v for v, _ in mo.bound} | set(outer)
            parts.append(((tuple((v, self.size(s, bvs)) for v, s in mo.bound), tuple(self.factor(f, bvs) for f in mo.factors)), c))
        return RawTerm(parts)


class RawTerm(object):
    """An unnormalized abstracted term: normalized when instantiated."""

    def __init__(self, parts):
        self.parts = parts
        self.key = ' + '.join(sorted('%s*{%s}%s' % (c, ','.join('%s:%s' % (v, s.key) for v, s in b), ' '.join(sorted(g.key for g in f))) for (b, f), c in parts))

    def inst(self, mp):
        parts = []
        for (b, f), c in self.parts:
            ren = {v: V(tm.fresh_bound()) for v, _ in b}
            m2 = dict(mp)
            m2.update(ren)
            parts.append(((tuple((ren[v].single(), s.subst(m2)) for v, s in b), tuple(g.subst(m2) for g in f)), c))
        return Term.make(parts)


DERIVED = {}         # atom name -> (kind, number of parameters, payload builder: args -> Term or Fm)
_derived_by_key = {}


def _register(kind, key, build, nparams):
    k = kind + ':' + key
    n = _derived_by_key.get(k)
    if n is None:
        n = '%s!%s' % (kind, hashlib.sha1(k.encode()).hexdigest()[:8])
        _derived_by_key[k] = n
        DERIVED[n] = (kind, nparams, build)
        if kind == 'chi':
            tm.ATOMS.idem.add(n)
        if kind == 'sqrt':
            tm.ATOMS.square[n] = lambda *args: build(args)
    return n


def _free_chi(t):
    """A 0/1 factor of a conditional in t that does not depend on bound indices."""
    for k in sorted(t.m):
        mo, _ = t.m[k]
        for b, f in components(mo.bound, mo.factors):
            if not b and f and f[0].name in DERIVED and DERIVED[f[0].name][0] == 'chi':
                return f[0]
    return None


def _set_factor(t, x, one):
    """t with the 0/1 factor x replaced by its value."""
    r = []
    for mo, c in t.m.values():
        rest = tuple(f for f in mo.factors if f.key != x.key)
        if len(rest) == len(mo.factors):
            r.append(((mo.bound, mo.factors), c))
        elif one:
            r.append(((mo.bound, rest), c))
    return Term.make(r)


def derive(kind, t):
    """Atom standing for kind(t), e.g. abs, sqrt, rcp; shared between equal arguments."""
    t = T(t)
    if kind == 'sqrt':
        x = _free_chi(t)
        if x is not None:
            # f(if c then t1 else t0) = if c then f(t1) else f(t0)
            chi = Term.atom(x.name, *x.idx)
            return chi * derive(kind, _set_factor(t, x, True)) + (1 - chi) * derive(kind, _set_factor(t, x, False))
    ab = Abstr()
    raw = ab.term(t)

    def build(args):
        return raw.inst({'%%%d' % i: P(a) for i, a in enumerate(args)})
    name = _register(kind, raw.key, build, len(ab.params))
    return Term.atom(name, *ab.params)


def _fm_abstract(f, ab, outer=frozenset()):
    """formula -> (key, builder)"""
    o = f.op
    if o in ('true', 'false'):
        return o, lambda mp: f
    if o in ('le', 'lt', 'eq'):
        raw = ab.term(f.a[0], outer)
        return o + raw.key, lambda mp: _cmp(o, raw.inst(mp))
    if o in ('ile', 'ieq'):
        p = ab.poly(f.a[0], set(outer))
        return o + p.key, lambda mp: _icmp(o, p.subst(mp))
    if o in ('and', 'or'):
        rs = [_fm_abstract(x, ab, outer) for x in f.a[0]]
        mk = And if o == 'and' else Or
        return o + '(' + ','.join(r[0] for r in rs) + ')', lambda mp: mk(*[r[1](mp) for r in rs])
    if o == 'not':
        r = _fm_abstract(f.a[0], ab, outer)
        return 'not' + r[0], lambda mp: Not(r[1](mp))
    if o in ('forall', 'exists'):
        vs = f.a[0]
        inner = frozenset(outer) | {v for v, _ in vs}
        ren = {v: '#%d' % (len(outer) + i) for i, (v, _) in enumerate(vs)}
        body = f.a[1].subst({v: V(w) for v, w in ren.items()})
        inner = frozenset(outer) | set(ren.values())
        szs = [ab.size(s, set(outer)) for _, s in vs]
        r = _fm_abstract(body, ab, inner)

        def build(mp):
            m2 = {w: V(fresh('q')) for w in ren.values()}
            m3 = dict(mp)
            m3.update(m2)
            b = r[1](m3)
            q = [(m2[ren[v]].single(), s.subst(mp)) for (v, _), s in zip(vs, szs)]
            return Forall(q, b) if o == 'forall' else Exists(q, b)
        return o + ','.join(s.key for s in szs) + r[0], build
    if o == 'pred':
        args = f.a[1]
        ks, bs = [], []
        for x in args:
            if isinstance(x, Poly):
                p = ab.poly(x, set(outer))
                ks.append(p.key)
                bs.append(lambda mp, p=p: p.subst(mp))
            else:
                raw = ab.term(x, outer)
                ks.append(raw.key)
                bs.append(lambda mp, raw=raw: raw.inst(mp))
        return 'pred' + f.a[0] + '(' + ','.join(ks) + ')', lambda mp: Fm('pred', f.a[0], tuple(b(mp) for b in bs))
    raise AssertionError(o)


def indicator(f):
    """0/1 term of a formula."""
    o = f.op
    if o == 'true':
        return T(1)
    if o == 'false':
        return T(0)
    if o == 'ile':
        return Term.ge(-f.a[0])
    if o == 'ieq':
        return Term.delta(f.a[0])
    if o == 'not':
        return 1 - indicator(f.a[0])
    if o == 'and':
        r = T(1)
        for x in f.a[0]:
            r = r * indicator(x)
        return r
    if o == 'or':
        r = T(1)
        for x in f.a[0]:
            r = r * (1 - indicator(x))
        return 1 - r
    if o == 'lt':
        return 1 - indicator(Not(f))
    ab = Abstr()
    key, b = _fm_abstract(f, ab)

    def build(args):
        return b({'%%%d' % i: P(a) for i, a in enumerate(args)})
    name = _register('chi', key, build, len(ab.params))
    return Term.atom(name, *ab.params)


def ite(c, a, b):
    a, b = T(a), T(b)
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a.key == b.key:
        return a
    x = indicator(c)
    return x * a + (1 - x) * b


# ------------------------------------------------------------------ z3
class Z3(object):
    """Translation into one z3 context; collects definitional axioms of the derived scalars used."""

    def __init__(self, linear=False):
        self.linear = linear          # products of reals as an uninterpreted function (sound, incomplete, fast)
        self.products = False
        self.funs = {}
        self.axioms = []
        self.done = set()
        self.ivars = {}
        self.pending = []

    def mul(self, xs):
        if len(xs) > 1:
            self.products = True
        if not self.linear:
            r = xs[0]
            for y in xs[1:]:
                r = r * y
            return r
        xs = sorted(xs, key=lambda x: x.sexpr())
        r = xs[0]
        f = z3.Function('mul*', z3.RealSort(), z3.RealSort(), z3.RealSort())
        for y in xs[1:]:
            r = f(r, y)
        return r

    def ivar(self, v):
        if v not in self.ivars:
            x = z3.Int(v)
            self.ivars[v] = x
            if v in RANGES:
                self.pending.append(v)
            if v in NONNEG:
                self.axioms.append(x >= NONNEG[v])
        return self.ivars[v]

    def fun(self, name, n, sort=None):
        k = (name, n, sort is None)
        if k not in self.funs:
            dom = [z3.IntSort()] * n
            self.funs[k] = z3.Function(name, *(dom + [sort if sort is not None else z3.RealSort()])) if n else z3.Const(name, sort if sort is not None else z3.RealSort())
        return self.funs[k]

    def poly(self, p, env=None):
        r = z3.IntVal(p.const())
        first = True
        for m, c in p.t.items():
            if m == ():
                continue
            x = None
            for v in m:
                if isinstance(v, App):
                    y = self.fun(v.name, len(v.args), z3.IntSort())(*[self.poly(a, env) for a in v.args]) if v.args else self.fun(v.name, 0, z3.IntSort())
                    if v.name in APP_RANGE:
                        self.app_range(v, y, env)
                elif env and v in env:
                    y = env[v]
                else:
                    y = self.ivar(v)
                x = y if x is None else x * y
            x = x if c == 1 else c * x
            r = x if (first and p.const() == 0) else r + x
            first = False
        return r

    def app_range(self, v, y, env):
        k = ('apprange', y.sexpr())
        if k in self.done or (env and any(w in env for a in v.args for w in a.vars())):
            return
        self.done.add(k)
        for ax in APP_RANGE[v.name](self, v, y):
            self.axioms.append(ax)

    def comp(self, bound, factors, env):
        """z3 term of one connected component."""
        if not bound:
            f, = factors
            if f.name == DELTA:
                return z3.If(self.poly(f.idx[0], env) == 0, z3.RealVal(1), z3.RealVal(0))
            if f.name == GE:
                return z3.If(self.poly(f.idx[0], env) >= 0, z3.RealVal(1), z3.RealVal(0))
            if f.name == INTF:
                x = z3.ToReal(self.poly(f.idx[0], env))
                return self.power(x, f.pw)
            if f.name in DERIVED:
                return self.power(self.derived(f.name, f.idx, env), f.pw)
            x = self.fun(f.name, len(f.idx))
            if f.idx:
                x = x(*[self.poly(i, env) for i in f.idx])
            hook = ATOM_FACTS.get(f.name)
            if hook is not None and not env:
                self.once(('af', x.sexpr()), lambda: hook(self, f, x))
            return self.power(x, f.pw)
        _, bound, factors = tm._canon_comp(bound, factors)
        bvs = {v for v, _ in bound}
        ab = Abstr()
        fs = [ab.factor(f, bvs) for f in factors]
        bs = [(v, ab.size(s, bvs)) for v, s in bound]
        name = 'sum{%s}%s' % (','.join('%s:%s' % (v, s.key) for v, s in bs), ' '.join(g.key for g in fs))
        x = self.fun(name, len(ab.params))
        if ab.params:
            x = x(*[self.poly(p, env) for p in ab.params])
        if not env:
            # sum of squares
            cnt = {}
            for f in factors:
                cnt[f.key] = cnt.get(f.key, 0) + f.pw
            if all(c % 2 == 0 for c in cnt.values()):
                self.once(('sq', x.sexpr()), lambda: self.axioms.append(x >= 0))
        return x

    def once(self, k, act):
        if k not in self.done:
            self.done.add(k)
            act()

    def power(self, x, n):
        if n == 1:
            return x
        if n > 1:
            return self.mul([x] * n)
        k = ('inv', x.sexpr())
        iv = z3.Real('inv<%s>' % x.sexpr())
        self.once(k, lambda: self.axioms.append(z3.Implies(x != 0, z3.And(self.mul([x, iv]) == 1, (iv > 0) == (x > 0)))))
        return self.mul([iv] * -n)

    def derived(self, name, idx, env):
        kind, n, build = DERIVED[name]
        if kind == 'chi':
            c = build(idx)
            return z3.If(self.fm(c, env), z3.RealVal(1), z3.RealVal(0))
        x = self.fun(name, n)
        if n:
            x = x(*[self.poly(i, env) for i in idx])
        if env:
            return x

        def ax():
            t = self.term(build(idx))
            if kind == 'abs':
                self.axioms.append(z3.And(x >= 0, z3.Or(x == t, x == -t)))
            elif kind == 'sqrt':
                self.axioms.append(z3.Implies(t >= 0, z3.And(x >= 0, self.mul([x, x]) == t, (x == 0) == (t == 0))))
            elif kind.startswith('round'):
                h = z3.RealVal('1/2') / z3.RealVal(10 ** int(kind[5:]))
                self.axioms.append(z3.And(x - t <= h, t - x <= h))
            elif kind == 'rcp':
                self.axioms.append(z3.Implies(t != 0, self.mul([x, t]) == 1))
            elif kind == 'sign':
                self.axioms.append(x == z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))
        self.once(('der', x.sexpr()), ax)
        return x

    def term(self, t, env=None):
        out = []
        for k in sorted(t.m):
            mo, c = t.m[k]
            ys = []
            conds = []
            for b, f in components(mo.bound, mo.factors):
                if not b and f[0].name in (DELTA, GE):
                    conds.append(self.poly(f[0].idx[0], env) == 0 if f[0].name == DELTA else self.poly(f[0].idx[0], env) >= 0)
                    continue
                if not b and f[0].name in DERIVED and DERIVED[f[0].name][0] == 'chi':
                    conds.append(self.fm(DERIVED[f[0].name][2](f[0].idx), env))
                    continue
                if not f:
                    # sum of ones over a range with dependent sizes
                    y = self.fun('count{%s}' % ','.join(s.key for _, s in b), 0)
                else:
                    y = self.comp(b, f, env)
                ys.append(y)
            x = self.mul(ys) if ys else None
            q = z3.RealVal(str(c))
            x = q if x is None else (x if c == 1 else q * x)
            if conds:
                x = z3.If(z3.And(*conds), x, z3.RealVal(0))
            out.append(x)
        if not out:
            return z3.RealVal(0)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def fm(self, f, env=None):
        o = f.op
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'le':
            return self.term(f.a[0], env) <= 0
        if o == 'lt':
            return self.term(f.a[0], env) < 0
        if o == 'eq':
            return self.term(f.a[0], env) == 0
        if o == 'ile':
            return self.poly(f.a[0], env) <= 0
        if o == 'ieq':
            return self.poly(f.a[0], env) == 0
        if o == 'not':
            return z3.Not(self.fm(f.a[0], env))
        if o == 'and':
            return z3.And(*[self.fm(x, env) for x in f.a[0]])
        if o == 'or':
            return z3.Or(*[self.fm(x, env) for x in f.a[0]])
        if o in ('forall', 'exists'):
            e = dict(env or {})
            vs, rng = [], []
            for v, s in f.a[0]:
                x = z3.Int(v + "'")
                lim = self.poly(s, e)
                e[v] = x
                vs.append(x)
                rng.append(z3.And(x >= 0, x < lim))
            b = self.fm(f.a[1], e)
            if o == 'forall':
                return z3.ForAll(vs, z3.Implies(z3.And(*rng), b))
            return z3.Exists(vs, z3.And(*(rng + [b])))
        if o == 'pred':
            args = [self.poly(x, env) if isinstance(x, Poly) else self.term(x, env) for x in f.a[1]]
            k = ('pred', f.a[0], tuple(a.sort().name() for a in args))
            if k not in self.funs:
                self.funs[k] = z3.Function(f.a[0], *([a.sort() for a in args] + [z3.BoolSort()])) if args else z3.Bool(f.a[0])
            return self.funs[k](*args) if args else self.funs[k]
        raise AssertionError(o)

    def flush(self):
        """Range axioms of the index variables met so far."""
        while self.pending:
            v = self.pending.pop()
            x = self.ivars[v]
            self.axioms.append(z3.And(x >= 0, x < self.poly(RANGES[v])))
        r = self.axioms
        self.axioms = []
        return r


APP_SIZE = {}        # integer function name -> size(args): values in [0, size)
INJ = set()          # injective integer functions of one argument
APP_RANGE = {}       # integer function name -> hook(z3 translation, App, z3 value) -> axioms
ATOM_FACTS = {}      # atom name -> hook(z3 translation, factor, z3 value): adds axioms
