"""Integer polynomials over symbolic dimensions and indices.

A variable is a string (plain symbol) or an App (uninterpreted integer function applied to
polynomials, e.g. the mode z(t) or the k-th entry of an index list).
"""


class App(object):
    __slots__ = ('name', 'args', 'key', '_h')

    def __init__(self, name, args):
        self.name = name
        self.args = tuple(P(a) for a in args)
        self.key = '%s(%s)' % (name, ','.join(a.key for a in self.args))
        self._h = hash(self.key)

    def __eq__(self, o):
        return isinstance(o, App) and o.key == self.key

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.key


def vkey(v):
    return v if isinstance(v, str) else v.key


class Poly(object):
    __slots__ = ('t', 'key', '_h')

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        items = sorted(('*'.join(vkey(v) for v in m), c) for m, c in self.t.items())
        self.key = '+'.join((('%d' % c if m == '' else (m if c == 1 else '%d*%s' % (c, m))) for m, c in items)) or '0'
        self._h = hash(self.key)

    def __eq__(self, o):
        if isinstance(o, int):
            o = P(o)
        return isinstance(o, Poly) and o.key == self.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return self.key

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2, key=vkey))
                t[m] = t.get(m, 0) + c1 * c2
        return Poly(t)
    __rmul__ = __mul__

    def is_const(self):
        return all(m == () for m in self.t)

    def const(self):
        return self.t.get((), 0)

    def vars(self):
        """All plain symbols, including those inside applications."""
        s = set()
        for m in self.t:
            for v in m:
                if isinstance(v, str):
                    s.add(v)
                else:
                    for a in v.args:
                        s |= a.vars()
        return s

    def apps(self):
        s = set()
        for m in self.t:
            for v in m:
                if isinstance(v, App):
                    s.add(v)
                    for a in v.args:
                        s |= a.apps()
        return s

    def single(self):
        """The variable if this polynomial is exactly one variable, else None."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def linear_in(self, v):
        """Coefficient of plain symbol v if it occurs only linearly, alone, and not in an App; else None."""
        coef = None
        for m, c in self.t.items():
            if v in m:
                if m != (v,):
                    return None
                coef = c
            else:
                for w in m:
                    if isinstance(w, App) and any(v in a.vars() for a in w.args):
                        return None
        return coef

    def subst(self, mp):
        if not mp:
            return self
        if not (self.vars() & set(mp)):
            return self
        r = P(0)
        for m, c in self.t.items():
            x = P(c)
            for v in m:
                if isinstance(v, str):
                    x = x * (mp[v] if v in mp else V(v))
                else:
                    x = x * Poly({(App(v.name, [a.subst(mp) for a in v.args]),): 1})
            r = r + x
        return r


_c = {}


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        r = _c.get(x)
        if r is None:
            r = _c[x] = Poly({(): x})
        return r
    raise TypeError('not an integer: %r' % (x,))


def V(name):
    return Poly({(name,): 1})


def A(name, *args):
    return Poly({(App(name, args),): 1})
