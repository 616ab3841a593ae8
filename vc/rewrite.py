"""Oriented tensor identities used as rewrite rules of the canonical form (e.g. inv(M) M = I)."""
from fractions import Fraction
from .poly import Poly, P, V, App
from . import term as tm
from .term import Term, T, F, DELTA, GE, INTF


class Rule(object):
    """lead (one monomial) -> rest (a term), both over the free pattern variables."""

    def __init__(self, bound, factors, rest, free, name=''):
        self.bound = dict(bound)
        self.factors = self._order(list(factors), set(self.bound) | set(free))
        self.rest = rest          # list of ((bound, factors), coef)
        self.free = set(free)
        self.names = {}
        for f in factors:
            self.names[f.name] = self.names.get(f.name, 0) + 1
        self.name = name

    @staticmethod
    def _order(factors, pv):
        """Factors whose compound indices only use pattern variables bound by earlier factors."""
        out, known = [], set()
        while factors:
            for f in factors:
                simple = {i.single() for i in f.idx if isinstance(i.single(), str)}
                need = set()
                for i in f.idx:
                    if not isinstance(i.single(), (str, App)):
                        need |= i.vars() & pv
                if need <= known | simple:
                    break
            else:
                f = factors[0]
            factors.remove(f)
            out.append(f)
            known |= f.vars() & pv
        return out

    def __call__(self, b, f):
        cnt = {}
        for g in f:
            cnt[g.name] = cnt.get(g.name, 0) + 1
        for n, c in self.names.items():
            if cnt.get(n, 0) < c:
                return None
        bs = dict(b)
        uses = {}
        for g in f:
            for v in g.vars():
                if v in bs:
                    uses[v] = uses.get(v, 0) + 1
        r = self._match(0, list(f), [], {}, {}, bs)
        if r is None:
            return None
        used, env, bmap = r
        left = [g for k, g in enumerate(f) if k not in used]
        gone = set(bmap.values())
        nb = [(v, s) for v, s in b if v not in gone]
        out = []
        for (rb, rf), c in self.rest:
            ren = {v: V(tm.fresh_bound()) for v, _ in rb}
            mp = dict(env)
            mp.update(ren)
            out.append(((tuple(nb) + tuple((ren[v].single(), s.subst(mp)) for v, s in rb),
                         tuple(left) + tuple(g.subst(mp) for g in rf)), c))
        return out

    def _unify(self, p, q, env, bmap, bs):
        v = p.single()
        if isinstance(v, str) and v in self.bound:
            w = q.single()
            if not isinstance(w, str) or w not in bs:
                return False
            if v in bmap:
                return bmap[v] == w
            if w in bmap.values():
                return False
            bmap[v] = w
            return True
        if isinstance(v, str) and v in self.free:
            if v in env:
                return env[v] == q
            env[v] = q
            return True
        m2 = dict(env)
        m2.update({x: V(w) for x, w in bmap.items()})
        if p.subst(m2) == q:
            return True
        w = q.single()
        if isinstance(v, App) and isinstance(w, App) and v.name == w.name and len(v.args) == len(w.args):
            return all(self._unify(x, y, env, bmap, bs) for x, y in zip(v.args, w.args))
        return False

    def _match(self, k, fs, used, env, bmap, bs):
        if k == len(self.factors):
            # pattern-bound indices must not occur outside of the matched factors or in sizes
            img = set(bmap.values())
            if len(img) != len(self.bound):
                return None
            for j, g in enumerate(fs):
                if j not in used and g.vars() & img:
                    return None
            for v, s in bs.items():
                if s.vars() & img:
                    return None
            for p in env.values():
                if p.vars() & img:
                    return None
            for v, w in bmap.items():
                want = self.bound[v].subst(env)
                if bs[w] != want and tm.ENGINE.int_zero(bs[w] - want) is not True:
                    return None
            return used, env, bmap
        pf = self.factors[k]
        for j, g in enumerate(fs):
            if j in used or g.name != pf.name or g.pw != pf.pw or len(g.idx) != len(pf.idx):
                continue
            orders = [g.idx]
            if len(g.idx) == 2 and g.name in tm.ATOMS.sym:
                orders.append((g.idx[1], g.idx[0]))
            for idx in orders:
                e2, b2 = dict(env), dict(bmap)
                ok = True
                pairs = sorted(zip(pf.idx, idx), key=lambda z: 0 if isinstance(z[0].single(), str) else 1)
                for p, q in pairs:
                    if not self._unify(p, q, e2, b2, bs):
                        ok = False
                        break
                if ok:
                    r = self._match(k + 1, fs, used + [j], e2, b2, bs)
                    if r is not None:
                        return r
        return None


def raw(t):
    """Monomials of a term with its bound variables renamed apart."""
    out = []
    for mo, c in t.m.values():
        out.append((mo.rename_apart(), c))
    return out


def relation(zero, free, prefer=None, name=''):
    """Rule out of a term equal to zero for all values of the free index variables.  prefer(factors) scores monomials."""
    monos = [(mo, c) for mo, c in zero.m.values()]
    need = set()
    for mo, _ in monos:
        for f in mo.factors:
            need |= f.vars() & set(free)
    cand = [(mo, c) for mo, c in monos if any(f.name not in (DELTA, GE, INTF) for f in mo.factors)
            and not any(f.name in (DELTA, GE) for f in mo.factors)
            and need <= set().union(*[f.vars() for f in mo.factors])]
    if not cand:
        return None

    def score(x):
        mo, c = x
        s = prefer(mo.factors) if prefer is not None else 0
        return (s, len(mo.factors), len(mo.bound), mo.key)
    lead = max(cand, key=score)
    mo, c = lead
    b, f = mo.rename_apart()
    rest = []
    for m2, c2 in monos:
        if m2 is mo:
            continue
        rest.append((m2.rename_apart(), -c2 / c))
    return Rule(b, f, rest, free, name)


def add_rule(ctx, rule):
    if rule is not None:
        ctx._rules.append(rule)
        ctx.epoch_bump()
