"""Loops and comprehensions over lists of symbolic length.

A symbolic for loop is verified with an inductive invariant: the value of every variable, array and list changed by
the body is guessed as a function of the iteration number (from one symbolic run of the body), then the guess is
checked to be inductive by running the body again from it.  A location whose guess is not inductive gets recurrence
symbols X[t] constrained by X[0] = entry value and X[t+1] = body(X[t]), which is always sound.  Paths of the body that
leave the loop are enumerated: either every iteration completes normally, or iteration e leaves it after all the
iterations before e completed normally.
"""
import ast
import re
from .poly import Poly, P, V, App, A as PA
from . import term as tm
from . import logic as lg
from .term import Term, T
from .logic import (NONNEG, Fm, TRUE, FALSE, And, Or, Not, Implies, Iff, Forall, Exists, RANGES, fresh, ite, indicator, Eq, ILe, ILt,
                    IEq, Pred)
from .ctx import Unsupported, Infeasible
from . import arr as ar
from .arr import Arr, Val, Cell, PyRaise, I, D, dsize, ctx
from . import interp as ip
from .interp import (LObj, DObj, SetObj, Obj, RangeObj, Opaque, Ret, Brk, Cont, Poison, PoisonRead, is_int, is_num, is_bool, fm, B,
                     vsubst, vmerge, Frame)


# ------------------------------------------------------------------ values
def freeze(x):
    """Evaluate lazily defined array values now (under the facts of the current path)."""
    if isinstance(x, Arr):
        v = x.val()
        return Arr(freeze_val(v))
    if isinstance(x, tuple):
        return tuple(freeze(y) for y in x)
    if isinstance(x, LObj):
        r = LObj([('one', freeze(s[1])) if s[0] == 'one' else s if s[0] == 'prefix' else (s[0], s[1], s[2], freeze(s[3])) for s in x.segs])
        return r
    if isinstance(x, DObj):
        return DObj({k: freeze(v) for k, v in x.d.items()})
    if isinstance(x, Obj):
        o = Obj(x.cls, {k: freeze(v) for k, v in x.attrs.items()})
        o.frozen = x.frozen
        return o
    if isinstance(x, Opaque):
        if getattr(x, 'shared', False):
            return x
        o = Opaque(x.kind)
        for k, v in x.__dict__.items():
            if k != 'kind':
                setattr(o, k, freeze(v))
        return o
    return x


def shapes(d):
    out = []
    for k, s in enumerate(d):
        if not s.r:
            out.append((k,))
        else:
            out += [(k, sh) for sh in shapes(s.d)]
    return out


def freeze_val(v):
    tab = {}

    def go(ds, shs):
        if not ds:
            locs, names = [], []
            for d, sh in zip(v.dims, shs):
                l, vs = ar._generic_of_shape(d, sh)
                locs.append(l)
                names += vs
            tab[tuple(shs)] = (names, v.fn(*locs))
            return
        for sh in shapes(ds[0]):
            go(ds[1:], shs + [sh])
    go(list(v.dims), [])

    def fn(*locs):
        names, t = tab[tuple(ar.loc_shape(l) for l in locs)]
        mp = {}
        for n, p in zip(names, [p for l in locs for p in ar.loc_leaves(l)]):
            mp[n] = P(p)
        return t.subst(mp)
    return Val(v.dims, fn, v.dtype, v.boolean)


def veq(a, b):
    """Formula: the two values are equal."""
    if a is b:
        return TRUE
    if isinstance(a, bool) and isinstance(b, bool):
        return TRUE if a == b else FALSE
    if is_bool(a) and is_bool(b):
        return Iff(fm(a), fm(b))
    if is_int(a) and is_int(b):
        return IEq(P(a), P(b))
    if is_num(a) and is_num(b):
        return Eq(T(a), T(b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        return val_eq(a.val(), b.val())
    if isinstance(a, slice) and isinstance(b, slice):
        return veq((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return FALSE if len(a) != len(b) else And(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, LObj) and isinstance(b, LObj):
        return list_eq(a, b)
    if isinstance(a, DObj) and isinstance(b, DObj):
        return FALSE if set(a.d) != set(b.d) else And(*[veq(a.d[k], b.d[k]) for k in a.d])
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
        return FALSE if set(a.attrs) != set(b.attrs) else And(*[veq(a.attrs[k], b.attrs[k]) for k in a.attrs])
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
        return TRUE if a == b else FALSE
    if hasattr(a, 'parts') and hasattr(b, 'parts') and len(a.parts) == len(b.parts):
        if any(isinstance(x, str) != isinstance(y, str) or (isinstance(x, str) and x != y) for x, y in zip(a.parts, b.parts)):
            return FALSE
        return And(*[IEq(P(x), P(y)) for x, y in zip(a.parts, b.parts) if not isinstance(x, str)])
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind:
        if getattr(a, 'shared', False):
            return TRUE if a is b else FALSE
        return And(*[veq(x, b.__dict__[k]) for k, x in a.__dict__.items() if k != 'kind' and not callable(x)])
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))


def val_eq(va, vb):
    if va.ndim != vb.ndim:
        return FALSE
    c = ctx()
    maps, dims = [], []
    conds = []
    for x, y in zip(va.dims, vb.dims):
        if ar.dkey(x) == ar.dkey(y):
            dims.append(x)
            maps.append((lambda l: l, lambda l: l))
            continue
        df = dsize(x) - dsize(y)
        z = c.int_zero(df)
        if z is False:
            return FALSE
        if z is None:
            conds.append(IEq(dsize(x), dsize(y)))
            if len(x) == 1 and len(y) == 1 and not x[0].r and not y[0].r:
                dims.append(x)
                maps.append((lambda l: l, lambda l: l))
                continue
            raise Unsupported('comparison of shapes')
        d, m1, m2 = ar.align_nobranch(x, y)
        dims.append(d)
        maps.append((m1, m2))

    def body(*ls):
        x = va.at(*[m[0](l) for m, l in zip(maps, ls)])
        y = vb.at(*[m[1](l) for m, l in zip(maps, ls)])
        if isinstance(x, Fm) or isinstance(y, Fm):
            return Iff(fm(x), fm(y))
        return Eq(x, y)
    return And(ar.forall_over(dims, body), *conds)


def list_eq(a, b):
    c = ctx()
    sa, sb = [s for s in a.segs], [s for s in b.segs]
    out = [IEq(P(a.length()), P(b.length()))]
    if out[0].op == 'false':
        return FALSE
    # pieces
    from .npmodel import cut
    pos = P(0)
    cuts = []
    if len(sa) == len(sb) and all(x[0] == y[0] and (x[0] == 'one' or P(x[1]) == P(y[1])) for x, y in zip(sa, sb)):
        for x, y in zip(sa, sb):
            if x[0] == 'one':
                out.append(veq(x[1], y[1]))
            else:
                k = fresh('k', x[1])
                out.append(Forall([(k, P(x[1]))], veq(vsubst(x[3], {x[2]: V(k)}), vsubst(y[3], {y[2]: V(k)}))))
        return And(*out)
    if len(sa) == 1 and sa[0][0] == 'fam':
        sa, sb = sb, sa
    if len(sb) == 1 and sb[0][0] == 'fam':
        _, n, v, g = sb[0]
        for s in sa:
            if s[0] == 'one':
                out.append(veq(s[1], vsubst(g, {v: pos})))
                pos = pos + 1
            else:
                k = fresh('k', s[1])
                out.append(Forall([(k, P(s[1]))], veq(vsubst(s[3], {s[2]: V(k)}), vsubst(g, {v: pos + V(k)}))))
                pos = pos + P(s[1])
        return And(*out)
    # walk both lists, cutting the longer piece
    if any(s[0] not in ('one', 'fam') for s in sa + sb):
        raise Unsupported('equality of lists')
    ln = lambda s: P(1) if s[0] == 'one' else P(s[1])
    el = lambda s, o: s[1] if s[0] == 'one' else vsubst(s[3], {s[2]: o})
    i = j = 0
    oa = ob = P(0)
    while i < len(sa) and j < len(sb):
        ra, rb = ln(sa[i]) - oa, ln(sb[j]) - ob
        if ra == rb or c.int_zero(ra - rb) is True:
            m, da, db = ra, True, True
        elif c.int_nonneg(rb - ra) is True:
            m, da, db = ra, True, False
        elif c.int_nonneg(ra - rb) is True:
            m, da, db = rb, False, True
        else:
            raise Unsupported('equality of lists')
        if m == P(1):
            out.append(veq(el(sa[i], oa), el(sb[j], ob)))
        elif m != P(0):
            k = fresh('k', m)
            out.append(Forall([(k, m)], veq(el(sa[i], oa + V(k)), el(sb[j], ob + V(k)))))
        oa, ob = oa + m, ob + m
        if da:
            i, oa = i + 1, P(0)
        if db:
            j, ob = j + 1, P(0)
    return And(*out)


# ------------------------------------------------------------------ locations
def loc_key(loc):
    k, o, n = loc
    if k == 'name':
        return (k, id(o), n)
    if k == 'cell':
        return (k, o.id, None)
    return (k, o.id, n)


MISSING = object()


def loc_get(loc):
    k, o, n = loc
    if k == 'name':
        return o.get(n, MISSING)
    if k == 'cell':
        return o.val
    if k == 'list':
        return list(o.segs)
    if k == 'attr':
        return o.attrs.get(n, MISSING)
    if k == 'item':
        return o.d.get(n, MISSING)
    raise AssertionError(k)


def loc_set(frame, loc, v):
    k, o, n = loc
    if k == 'name':
        fr = frame if o is frame.env else Frame(frame.interp, frame.mod, o)
        if v is MISSING:
            v = Poison('not assigned')
        fr.setname(n, v)
    elif k == 'cell':
        o.set(v)
    elif k == 'list':
        o.mutate(v)
    elif v is MISSING:
        raise Unsupported('attribute created in a loop')
    else:
        o.set(n, v)


def loc_freeze(loc):
    v = loc_get(loc)
    k = loc[0]
    if v is MISSING:
        return v
    if k == 'cell':
        return freeze_val(v)
    if k == 'list':
        return freeze(LObj(v)).segs
    if isinstance(v, Poison):
        return v
    return freeze(v)


class Path(object):
    pass


def newsyms(n0, objs):
    """Plain symbols created after counter n0 that occur free in the given facts or values."""
    out = set()
    for s in objs:
        for v in s:
            m = re.match(r'^[A-Za-z_@.:0-9]*?~(\d+)', v)
            if m and int(m.group(1)) > n0:
                out.add(v)
    return out


def free_syms(x):
    if isinstance(x, Poly):
        return x.vars()
    if isinstance(x, Term):
        return x.free()
    if isinstance(x, Fm):
        o = x.op
        if o in ('true', 'false'):
            return set()
        if o in ('le', 'lt', 'eq', 'ile', 'ieq', 'not'):
            return free_syms(x.a[0])
        if o in ('and', 'or'):
            return set().union(*[free_syms(y) for y in x.a[0]])
        if o in ('forall', 'exists'):
            s = free_syms(x.a[1])
            for v, sz in x.a[0]:
                s = s | free_syms(sz)
            return s - {v for v, _ in x.a[0]}
        if o == 'pred':
            return set().union(*[free_syms(y) for y in x.a[1]]) if x.a[1] else set()
    if isinstance(x, Arr):
        return free_syms(x.val())
    if isinstance(x, Val):
        s = set()
        for d in x.dims:
            s |= dim_syms(d)
        shs = [[]]
        for d in x.dims:
            shs = [a + [b] for a in shs for b in shapes(d)]
        for sh in shs:
            locs, names = [], set()
            for d, h in zip(x.dims, sh):
                l, vs = ar._generic_of_shape(d, h)
                locs.append(l)
                names |= set(vs)
            s |= free_syms(x.at(*locs)) - names
        return s
    if isinstance(x, (tuple, list)):
        s = set()
        for y in x:
            s |= free_syms(y)
        return s
    if isinstance(x, LObj):
        s = set()
        for g in x.segs:
            s |= free_syms(g[1]) if g[0] == 'one' else set() if g[0] == 'prefix' else (free_syms(P(g[1])) | (free_syms(g[3]) - {g[2]}))
        return s
    if isinstance(x, Obj):
        return free_syms(list(x.attrs.values()))
    if isinstance(x, DObj):
        return free_syms(list(x.d.values()))
    if hasattr(x, 'parts') and hasattr(x, 'subst'):
        return free_syms([p for p in x.parts if not isinstance(p, str)])
    if isinstance(x, Opaque):
        if getattr(x, 'shared', False):
            return set()
        return free_syms([v for k, v in x.__dict__.items() if k != 'kind'])
    if isinstance(x, SetObj):
        return free_syms(x.lst)
    if isinstance(x, RangeObj):
        return x.a.vars() | x.b.vars()
    if isinstance(x, slice):
        return free_syms([x.start, x.stop, x.step])
    return set()


def dim_syms(d):
    s = set()
    for g in d:
        if g.r:
            s |= g.c.vars() | (dim_syms(g.d) - {g.v})
        else:
            s |= g.n.vars()
    return s


# ------------------------------------------------------------------ the loop engine
class SymLoop(object):
    """One segment ('fam', n, v, g) of an iteration space with a body."""

    def __init__(self, frame, n, body, what, comp=False):
        """body(i): runs one iteration with index polynomial i (binds the target, executes the statements); returns a value."""
        self.frame = frame
        self.c = ctx()
        self.it = frame.interp
        self.n = P(n)
        self.body = body
        self.what = what
        self.i = fresh('i', self.n)
        self.L = {'id': fresh('L'), 'seq': 0, 'index': [V(self.i)]}
        self.maxid = ip._ids[0]
        self.maxcell = Cell._n
        self.n0 = lg._n[0]
        self.locs = {}               # key -> location (mutated by the body, existing before the loop)
        self.carried = set()         # keys of names whose value is read before it is written
        self.rec = {}                # key -> recurrence function t -> value
        self.guess = {}              # key -> function t -> value
        self.entry = {}
        self.dead = set()
        self.skipping = self.can_skip = self.keep = False

    # -------- running the body
    def preexisting(self, loc):
        k, o, n = loc
        if k == 'name':
            return o is self.frame.env or any(o is e for e in getattr(self.frame, 'outer_envs', ()))
        if k == 'cell':
            return o.id <= self.maxcell
        return o.id <= self.maxid

    def run(self, install):
        c = self.c

        def one(mk):
            old = c.mutation_log
            c.mutation_log = None
            c.assume(ILe(1, self.n))
            install()
            mk2 = c.mark()
            c.mutation_log = log = []
            self.L['seq'] = 0
            self.it.loops.append(self.L)
            p = Path()
            p.value = None
            nids, ncells = ip._ids[0], Cell._n
            depth, stack = self.it.depth, list(self.it.stack)
            try:
                p.value = freeze(self.body(V(self.i)))
                p.out = ('normal',)
            except Cont:
                p.out = ('normal',)
            except Brk:
                p.out = ('break',)
            except Ret as r:
                p.out = ('return', freeze(r.v))
            except PyRaise as e:
                p.out = ('raise', e.kind, e.value)
            finally:
                c.mutation_log = old
                self.it.loops.pop()
                self.it.depth = depth
                self.it.stack[:] = stack
            p.pc = list(c.pc[mk2[5]:])
            p.facts = list(c.facts[mk2[1]:])
            p.decisions = list(c.decisions[mk2[3]:])
            p.locs = {}
            for loc in log:
                if self.preexisting(loc):
                    p.locs[loc_key(loc)] = loc
            p.state = {k: loc_freeze(l) for k, l in list(self.locs.items()) + list(p.locs.items())}
            return p
        r = c.explore(one)
        return r

    def install_entry(self):
        for k, loc in self.locs.items():
            if k in self.rec:
                loc_set(self.frame, loc, self.rec[k](V(self.i)))
            elif k in self.guess and loc[0] == 'name':
                loc_set(self.frame, loc, self.guess[k](V(self.i)))
            elif loc[0] == 'name' and k not in self.carried:
                loc_set(self.frame, loc, Poison('loop variable'))

    def install_guess(self):
        for k, loc in self.locs.items():
            if k in self.rec:
                loc_set(self.frame, loc, self.rec[k](V(self.i)))
            elif k in self.guess:
                loc_set(self.frame, loc, self.guess[k](V(self.i)))
            else:
                loc_set(self.frame, loc, Poison('loop variable'))

    def attempt(self, install):
        """Run the body until the set of mutated locations is stable."""
        for _ in range(12):
            try:
                paths = self.run(install)
            except PoisonRead as e:
                k = ('name', id(e.env), e.name)
                if k in self.locs and k not in self.carried:
                    if self.entry[k] is MISSING or isinstance(self.entry[k], Poison):
                        raise
                    self.carried.add(k)
                    self.guess.clear()
                    continue
                raise
            new = {}
            for p in self.normal(paths):
                # (what only a last iteration writes is not loop state)
                for k, loc in p.locs.items():
                    if k not in self.locs:
                        new[k] = loc
            if not new:
                return paths
            for k, loc in new.items():
                self.locs[k] = loc
                self.entry[k] = loc_get(loc)
                if isinstance(self.entry[k], Poison):
                    self.entry[k] = MISSING
            if not self.keep:
                self.guess.clear()
        raise Unsupported('loop state does not stabilise')

    def go(self):
        """Returns the list of paths (from the inductive state)."""
        for _ in range(8):
            try:
                paths = self.attempt(self.install_entry)
            except Unsupported:
                if self.guess or not self.can_skip:
                    raise
                # a statement may be out of reach only because of the entry value of a variable: guess the variables
                # from a run that skips such statements (guesses are checked on complete runs)
                self.skipping = True
                try:
                    paths = self.attempt(self.install_entry)
                finally:
                    self.skipping = False
                names = [k for k, l in self.locs.items() if l[0] == 'name' and k in self.carried and k not in self.rec]
                if not names:
                    raise
                self.make_guesses(paths, names)
                if not self.guess:
                    raise
                self.keep = True
                paths = self.attempt(self.install_entry)
                self.keep = False
            stateful = [k for k, l in self.locs.items() if l[0] != 'name' or k in self.carried]
            if not stateful:
                return paths
            names = [k for k in stateful if self.locs[k][0] == 'name' and k not in self.rec]
            if names and len(names) < len(stateful):
                # arrays and lists are guessed from a run with the guessed variables
                n = len(self.locs), len(self.carried)
                self.make_guesses(paths, names)
                paths = self.attempt(self.install_entry)
                if (len(self.locs), len(self.carried)) != n:
                    continue
            self.make_guesses(paths, stateful)
            n = len(self.locs), len(self.carried)
            paths = self.attempt(self.install_guess)
            if (len(self.locs), len(self.carried)) != n:
                continue
            bad = [k for k in stateful if k not in self.rec and not self.inductive(k, paths)]
            if not bad:
                return paths
            self.guess.clear()
            # (a list may only look wrong because of a wrong guess for a variable)
            first = [k for k in bad if self.locs[k][0] != 'list'] or bad
            for k in first:
                self.make_recurrence(k, paths)
        raise Unsupported('no loop invariant found')

    def normal(self, paths):
        return [p for p in paths if p.out[0] == 'normal']

    def merged(self, paths, k):
        ps = self.normal(paths)
        if not ps:
            return None
        vals = [(And(*p.pc), p.state[k] if k in p.state else None) for p in ps]
        kind = self.locs[k][0]
        if kind == 'cell':
            vals = [(pc, Arr(v)) for pc, v in vals]
        if kind == 'list':
            vals = [(pc, LObj(v)) for pc, v in vals]
        v = ip.merge_paths(vals)
        if kind == 'cell':
            return v.val()
        if kind == 'list':
            return v
        return v

    # -------- guesses
    def make_guesses(self, paths, stateful):
        for k in stateful:
            if k in self.rec or k in self.guess:
                continue
            g = self.guess_one(k, paths)
            if g is None:
                self.make_recurrence(k, paths)
            else:
                self.guess[k] = g

    def guess_one(self, k, paths):
        kind = self.locs[k][0]
        e = self.entry[k]
        i = self.i
        if kind == 'list':
            return self.guess_list(k, paths, e)
        try:
            m = self.merged(paths, k)
        except Unsupported:
            return None
        if m is None:
            return lambda t: e
        if kind == 'cell':
            return self.guess_cell(e, m)
        if is_int(e) and is_int(m):
            d = P(m) - P(e)
            if i in d.vars():
                if any(x in RANGES for x in d.vars() - {i}) or self.c.int_nonneg(d) is not True:
                    return None
                from .npfuncs import fam_sum

                def g(t):
                    if P(t) == P(0):
                        return I(P(e))
                    kk = fresh('k', t)
                    return I(P(e) + P(fam_sum(self.it, ('fam', I(P(t)), kk, I(d.subst({i: V(kk)}))))))
                return g
            return lambda t: I(P(e) + P(t) * d)
        if is_num(e) and is_num(m):
            d = T(m) - T(e)

            def g(t):
                return T(e) + psum(d, i, t)
            return g
        if is_bool(e) and is_bool(m):
            mm = fm(m)
            if B(fm(e)) is False:
                def g(t):
                    kk = fresh('k', t)
                    return B(Exists([(kk, P(t))], mm.subst({i: V(kk)})))
                return g
            if B(fm(e)) is True:
                def g(t):
                    kk = fresh('k', t)
                    return B(Forall([(kk, P(t))], mm.subst({i: V(kk)})))
                return g
            return None
        if isinstance(e, Arr) and isinstance(m, Arr):
            va, vm = e.val(), m.val()
            if va.ndim == vm.ndim and all(ar.dkey(x) == ar.dkey(y) for x, y in zip(va.dims, vm.dims)) and not va.boolean:
                def g(t):
                    def fn(*ls):
                        d = vm.at(*ls) - va.at(*ls)
                        return va.at(*ls) + psum(d, i, t)
                    return Arr(Val(va.dims, fn, vm.dtype))
                return g
            # growth by concatenation
            for ax in range(va.ndim):
                if va.ndim == vm.ndim and len(vm.dims[ax]) > len(va.dims[ax]) and \
                        all(ar.dkey(x) == ar.dkey(y) for j, (x, y) in enumerate(zip(va.dims, vm.dims)) if j != ax):
                    ne = len(va.dims[ax])
                    if ar.dkey(vm.dims[ax][:ne]) != ar.dkey(va.dims[ax]):
                        return None
                    extra = vm.dims[ax][ne:]

                    def piece(ax=ax, ne=ne, extra=extra):
                        dims = list(vm.dims)
                        dims[ax] = extra

                        def fn(*ls):
                            ls = list(ls)
                            ls[ax] = (ls[ax][0] + ne,) + tuple(ls[ax][1:])
                            return vm.at(*ls)
                        return Val(dims, fn, vm.dtype, vm.boolean)
                    pv = piece()

                    def g(t, ax=ax, pv=pv):
                        kk = fresh('k', t)
                        return Arr(ar.concat([va, ('fam', I(P(t)), kk, pv.close({i: V(kk)}))], ax))
                    return g
        return None

    def guess_cell(self, e, m):
        """Each iteration writes its own row (or column)."""
        if e.ndim != m.ndim or e.boolean:
            return None
        if any(ar.dkey(x) != ar.dkey(y) for x, y in zip(e.dims, m.dims)):
            # a block write splits the dimensions
            try:
                al = [ar.align_nobranch(x, y) for x, y in zip(e.dims, m.dims)]
            except Unsupported:
                return None
            e, m = [Val([a[0] for a in al], (lambda *ls, z=z, w=w: z.at(*[a[w](l) for a, l in zip(al, ls)])), z.dtype, z.boolean)
                    for z, w in ((e, 1), (m, 2))]
        i = self.i
        # which leaf coordinate is tied to the iteration number
        tie = {}
        shs = [[]]
        for d in e.dims:
            shs = [a + [b] for a in shs for b in shapes(d)]
        for sh in shs:
            locs, names = [], []
            for d, h in zip(e.dims, sh):
                l, vs = ar._generic_of_shape(d, h)
                locs.append(l)
                names += vs
            df = m.at(*locs) - e.at(*locs)
            if df.is_zero():
                tie[tuple(sh)] = None
                continue
            cand = None
            for mo, _ in df.m.values():
                here = {}
                for f in mo.factors:
                    if f.name != tm.DELTA:
                        continue
                    p = f.idx[0]
                    ci = p.linear_in(i)
                    if ci not in (1, -1):
                        continue
                    q = p * ci - V(i)               # i + q == 0
                    for pos, nm in enumerate(names):
                        cn = q.linear_in(nm)
                        if cn == -1:
                            here[pos] = -q          # i == -q, linear in this coordinate
                cand = dict(here) if cand is None else {a: b for a, b in cand.items() if a in here and here[a] == b}
            if not cand:
                if not all(any(f.name == tm.DELTA and scattered(f.idx[0], i, names) for f in mo.factors) for mo, _ in df.m.values()):
                    return None
                tie[tuple(sh)] = (names, None)
                continue
            pos = sorted(cand)[0]
            tie[tuple(sh)] = (names, cand[pos])

        def g(t):
            def fn(*ls):
                sh = tuple(ar.loc_shape(l) for l in ls)
                tt = tie[sh]
                if tt is None:
                    return e.at(*ls)
                if tt[1] is None:           # at distinct positions: the changes add up
                    return e.at(*ls) + psum(m.at(*ls) - e.at(*ls), i, t)
                names, own = tt
                leaves = [p for l in ls for p in ar.loc_leaves(l)]
                r = own.subst(dict(zip(names, [P(x) for x in leaves])))
                c = And(ILe(0, r), ILt(r, P(t)))
                nw = m.at(*ls).subst({i: r})
                return ite(c, nw, e.at(*ls))
            return Val(e.dims, fn, m.dtype)
        return g

    def guess_list(self, k, paths, e):
        i = self.i
        ps = self.normal(paths)
        if not ps:
            return lambda t: list(e)
        apps = []
        for p in ps:
            s = p.state[k]
            if len(s) < len(e) or not all(self.same_seg(x, y) for x, y in zip(e, s)):
                apps = None
                break
            tail = s[len(e):]
            if any(x[0] != 'one' for x in tail):
                apps = None
                break
            apps.append((And(*p.pc), [x[1] for x in tail]))
        if apps is None:
            return self.guess_listmap(k, ps, e)
        ns = {len(a) for _, a in apps}
        if len(ns) == 1:
            cnt = ns.pop()
            if cnt == 0:
                return lambda t: list(e)
            if cnt > 1:
                raise Unsupported('several appends per iteration')
            v = ip.merge_paths([(pc, a[0]) for pc, a in apps])
            v = self.as_recurrence(v, paths)

            def g(t):
                if P(t) == P(0):
                    return list(e)
                kk = fresh('l', t)
                return list(e) + [('fam', I(P(t)), kk, vsubst(v, {i: V(kk)}))]
            g.item = v
            return g
        if ns <= {0, 1}:
            yes = [(pc, a[0]) for pc, a in apps if a]
            cond = Or(*[pc for pc, _ in yes])
            v = ip.merge_paths(yes)
            if i in free_syms(self.n):
                raise Unsupported('filter')
            # kept elements, as a function of the iteration number: only usable as a final value
            from .npmodel import filter_fam
            box = {}

            def g(t):
                if P(t) == self.n:
                    if 'f' not in box:
                        var = fresh('l', self.n)
                        box['f'] = filter_fam(self.n, var, cond.subst({i: V(var)}), lambda x: vsubst(v, {i: x}))
                    return list(e) + box['f']
                return list(e) + [('prefix', k, P(t))]
            g.item = v
            g.cond = cond
            return g
        raise Unsupported('appends of different lengths')

    def as_recurrence(self, v, paths):
        """An appended value that is the new value of a recurrence, by its name."""
        ps = self.normal(paths)
        if len(ps) != 1 or not isinstance(v, (Arr, Term)):
            return v
        for k, g in self.rec.items():
            if self.locs[k][0] != 'name':
                continue
            w = ps[0].state.get(k)
            if isinstance(w, (Arr, Term)) and type(w) is type(v):
                try:
                    f = veq(v, w)
                except Unsupported:
                    continue
                if f.op == 'true':
                    return g(V(self.i) + 1)
        return v

    def guess_listmap(self, k, ps, e):
        """Item assignment at the iteration number: same length, new element i."""
        if len(ps) != 1 or len(e) != 1 or e[0][0] != 'fam' or P(e[0][1]) != self.n:
            return None
        s = ps[0].state[k]
        ones = [x for x in s if x[0] == 'one']
        if len(ones) != 1:
            return None
        v = ones[0][1]
        i = self.i
        _, n, ev, eg = e[0]

        def g(t):
            t = P(t)
            a, b = fresh('l', t), fresh('l', self.n - t)
            out = []
            if t != P(0):
                out.append(('fam', I(t), a, vsubst(v, {i: V(a)})))
            if t != self.n:
                out.append(('fam', I(self.n - t), b, vsubst(eg, {ev: t + V(b)})))
            return out
        return g

    def same_seg(self, x, y):
        if x[0] != y[0]:
            return False
        if x[0] == 'one':
            if x[1] is y[1]:
                return True
            try:
                f = veq(x[1], y[1])
            except Unsupported:
                return False
            return f.op == 'true' or self.c.truth(f) is True
        if x[0] == 'prefix':
            return x[1:] == y[1:] or (x[1] == y[1] and x[2] == y[2])
        if P(x[1]) != P(y[1]):
            return False
        try:
            f = Forall([(x[2], P(x[1]))], veq(x[3], vsubst(y[3], {y[2]: V(x[2])})))
        except Unsupported:
            return False
        return f.op == 'true' or self.c.truth(f) is True

    # -------- recurrences
    def make_recurrence(self, k, paths):
        kind = self.locs[k][0]
        e = self.entry[k]
        nm, ix = self.it.fresh_name('rec')
        if kind == 'list':
            return self.recurrence_list(k, paths, e, nm, ix)
        if kind == 'cell':
            self.rec[k] = lambda t: rec_val(nm, ix, t, e)
            return
        if isinstance(e, Arr):
            v = e.val()
            ms = [p.state.get(k) for p in self.normal(paths)]
            for m in ms:
                if isinstance(m, Arr) and (m.ndim != v.ndim or any(ar.dkey(x) != ar.dkey(y) for x, y in zip(m.dims, v.dims))):
                    if m.ndim != v.ndim or any(self.c.int_zero(dsize(x) - dsize(y)) is not True for x, y in zip(m.dims, v.dims)):
                        raise Unsupported('array changes shape in a loop')
                if not isinstance(m, Arr):
                    raise Unsupported('variable changes type in a loop')
            self.rec[k] = lambda t: Arr(rec_val(nm, ix, t, v))
            self.rec[k].nm = (nm, list(ix))
            return
        if is_int(e):
            if not all(is_int(p.state.get(k)) for p in self.normal(paths)):
                raise Unsupported('variable changes type in a loop')
            self.rec[k] = lambda t: PA(nm, *(list(ix) + [P(t)]))
            return
        if is_num(e):
            if not all(is_num(p.state.get(k)) for p in self.normal(paths)):
                raise Unsupported('variable changes type in a loop')
            self.rec[k] = lambda t: Term.atom(nm, *(list(ix) + [P(t)]))
            return
        if is_bool(e):
            self.rec[k] = lambda t: Pred(nm, *(list(ix) + [P(t)]))
            return
        raise Unsupported('loop-carried value of type %s' % type(e).__name__)

    def recurrence_list(self, k, paths, e, nm, ix):
        item = None
        for p in self.normal(paths):
            s = p.state[k]
            if not s or s[-1][0] != 'one':
                raise Unsupported('list changed in a loop other than by appending')
            item = s[-1][1]
        L0 = P(LObj(e).length())
        if isinstance(item, Arr):
            v = item.val()
            if self.i in free_syms_dims(v):
                raise Unsupported('list of arrays of varying shape')
            at = lambda t: Arr(rec_val(nm, ix, t, v))
        elif is_num(item) and not is_int(item):
            at = lambda t: Term.atom(nm, *(list(ix) + [P(t)]))
        elif is_int(item):
            at = lambda t: PA(nm, *(list(ix) + [P(t)]))
        else:
            raise Unsupported('recurrence on a list of %s' % type(item).__name__)

        def g(t):
            n = L0 + P(t)
            kk = fresh('l', n)
            return [('fam', I(n), kk, at(V(kk)))]
        g.at = at
        g.L0 = L0
        g.nm = (nm, list(ix))
        self.rec[k] = g

    def rec_facts(self, paths):
        """Defining equations of the recurrence symbols."""
        out = []
        for k, g in self.rec.items():
            loc = self.locs[k]
            e = self.entry[k]
            if loc[0] == 'list':
                f = list_eq(LObj(e), LObj([('fam', I(g.L0), 'z', g.at(V('z')))])) if g.L0 != P(0) else TRUE
                out.append(('init', f))
                ps = self.normal(paths)
                for p in ps:
                    s = p.state[k]
                    if len(s) != 2 or s[-1][0] != 'one':
                        raise Unsupported('list changed in a loop other than by one append')
                    out.append(('step', Implies(And(*p.pc), veq(g.at(g.L0 + V(self.i)), s[-1][1]))))
                continue

            def w(x):
                return Arr(x) if loc[0] == 'cell' else x
            out.append(('init', veq(w(g(P(0))), w(e))))
            for p in self.normal(paths):
                out.append(('step', Implies(And(*p.pc), veq(w(g(V(self.i) + 1)), w(p.state[k])))))
        return out

    # -------- inductiveness
    def inductive(self, k, paths):
        g = self.guess.get(k)
        if g is None:
            return False
        loc = self.locs[k]
        i = V(self.i)
        c = self.c
        if loc[0] == 'list' and hasattr(g, 'item'):
            cond = getattr(g, 'cond', None)
            pre = g(i)
            for p in self.normal(paths):
                s = p.state[k]
                tail = s[len(pre):]
                if len(s) < len(pre):
                    return False
                for x, y in zip(pre, s):
                    if x[0] == 'prefix':
                        if y[0] != 'prefix' or x[1] != y[1] or x[2] != y[2]:
                            return False
                mk = c.mark()
                try:
                    for f in p.pc + p.facts:
                        c.assume(f)
                    for kd, f in self.rec_facts(paths):
                        c.assume(f)
                    if cond is None:
                        if len(tail) != 1 or tail[0][0] != 'one':
                            return False
                        try:
                            f = veq(tail[0][1], g.item)
                        except Unsupported:
                            return False
                        if not c.check(f)[0]:
                            return False
                    elif len(tail) == 0:
                        if not c.check(Not(cond))[0]:
                            return False
                    elif len(tail) == 1 and tail[0][0] == 'one':
                        if not c.check(And(cond, veq(tail[0][1], g.item)))[0]:
                            return False
                    else:
                        return False
                except Infeasible:
                    pass
                finally:
                    c.rollback(mk)
            return True

        def w(x):
            return Arr(x) if loc[0] == 'cell' else LObj(x) if loc[0] == 'list' else x
        try:
            f0 = veq(w(g(P(0))), w(self.entry[k]))
            if not c.check(f0)[0]:
                return False
            for p in self.normal(paths):
                mk = c.mark()
                try:
                    c.assume(ILe(1, self.n))
                    for f in p.pc + p.facts:
                        c.assume(f)
                    f = veq(w(g(i + 1)), w(p.state[k]))
                    if not c.check(f)[0]:
                        return False
                except Infeasible:
                    pass
                finally:
                    c.rollback(mk)
        except Unsupported:
            return False
        return True

    # -------- after the loop
    def at(self, k, t):
        if k in self.rec:
            return self.rec[k](t)
        return self.guess[k](t)

    def gen(self, objs):
        """Substitution turning the symbols created in one iteration into functions of the iteration."""
        syms = newsyms(self.n0, [free_syms(o) for o in objs])
        syms.discard(self.i)
        mp = {}
        for s in syms:
            mp[s] = PA(s, V(self.i))
            if s in RANGES:
                size = RANGES[s]
                i = self.i
                from .npmodel import reg_range
                reg_range(s, lambda args, size=size, i=i: size.subst({i: args[-1]}))
            elif s in lg.NONNEG:
                lo = lg.NONNEG[s]
                lg.APP_RANGE[s] = lambda z, app, y, lo=lo: [y >= lo]
        # sizes may mention other new symbols
        for s in list(mp):
            if s in RANGES and set(mp) & RANGES[s].vars():
                size = RANGES[s].subst(mp)
                i = self.i
                from .npmodel import reg_range
                reg_range(s, lambda args, size=size, i=i: size.subst({i: args[-1]}))
        return mp

    def assume_normal(self, paths, upto):
        """All iterations before `upto` end normally: facts and conditions, for every iteration."""
        c = self.c
        i = self.i
        ps = self.normal(paths)
        rec = self.rec_facts(paths)
        fs = []
        for kind, f in rec:
            if kind == 'init':
                c.assume(f)
            else:
                fs.append(f)
        if not ps:
            c.assume(ILe(upto, 0))
            return
        fs.append(Or(*[And(*p.pc) for p in ps]))
        for p in ps:
            pc = And(*p.pc)
            for f in p.facts:
                if f in p.pc:
                    continue
                fs.append(Implies(pc, f))
        mp = self.gen(fs)
        for f in fs:
            if f.op == 'true':
                continue
            f = f.subst(mp) if mp else f
            j = fresh('j')
            c.assume(Forall([(j, P(upto))], f.subst({i: V(j)})))
        self.rec_rules(paths, upto, mp)

    def rec_rules(self, paths, upto, mp):
        """The defining equations of a recurrence X, also as rewrite rules: X[0] is the entry value and, for matrices,
        X[t+1] the value computed by the body."""
        ps = self.normal(paths)
        for k, g in self.rec.items():
            nm = getattr(g, 'nm', None)
            if nm is None or nm[1]:
                continue
            e = self.entry[k]
            if self.locs[k][0] == 'list':
                if g.L0 != P(1) or len(e) != 1 or e[0][0] != 'one' or not isinstance(e[0][1], Arr):
                    continue
                e = e[0][1].val()
                new = [p.state[k][-1][1] for p in ps]
                new = [x.val() if isinstance(x, Arr) else None for x in new]
            elif isinstance(e, Arr):
                e = e.val()
                new = [p.state[k].val() if isinstance(p.state[k], Arr) else None for p in ps]
            else:
                continue
            if e.boolean or any(len(d) != 1 or d[0].r for d in e.dims):
                continue
            st = None
            if len(ps) == 1 and not ps[0].pc and e.ndim == 2 and new[0] is not None and new[0].ndim == 2:
                if all(len(d) == 1 and not d[0].r for d in new[0].dims):
                    st = new[0].close(mp) if mp else new[0]
            self.c._rules.append(RecRule(nm[0], e, st, self.i, P(upto)))
            self.c.epoch_bump()

    def finish(self, paths, on_exit=True):
        """Choose how the loop ends; installs the final state.  Returns ('done', None) or ('break', path, e); raises Ret / PyRaise."""
        c = self.c
        ps = self.normal(paths)
        exits = [p for p in paths if p.out[0] != 'normal']
        ch = c.choose(1 + len(exits), self.what) if exits else 0
        if ch == 0:
            self.assume_normal(paths, self.n)
            mp = self.gen([v for p in ps for v in p.state.values() if v is not MISSING and not isinstance(v, Poison)] +
                          [p.value for p in ps])
            for k, loc in self.locs.items():
                if k in self.rec or k in self.guess:
                    v = self.at(k, self.n)
                    loc_set(self.frame, loc, close_loc(loc, v, mp, self.i, None))
                else:
                    v = Poison('value of the last iteration')
                    if ps and c.int_nonneg(self.n - 1) is True:
                        try:
                            m = self.merged(paths, k)
                            v = vsubst(vsubst(m, mp) if mp else m, {self.i: self.n - 1})
                        except Unsupported:
                            pass
                    loc_set(self.frame, loc, v)
            return 'done', mp, None
        p = exits[ch - 1]
        e = fresh('e', self.n)
        c.assume(ILe(1, self.n))
        c.assume(ILt(V(e), self.n))
        self.assume_normal(paths, V(e))
        mp = {self.i: V(e)}
        for f in p.pc + p.facts:
            c.assume(f.subst(mp))
        c.decisions += ['[iteration %s] %s' % (e, d) for d in p.decisions]
        for k, loc in list(self.locs.items()) + [z for z in p.locs.items() if z[0] not in self.locs]:
            v = p.state.get(k, MISSING)
            if v is MISSING:
                v = Poison('not assigned')
            if isinstance(v, Poison):
                loc_set(self.frame, loc, v)
                continue
            if loc[0] == 'list' and any(s[0] == 'prefix' for s in v):
                v2 = []
                for s in v:
                    if s[0] == 'prefix':
                        g = self.guess[s[1]]
                        from .npmodel import filter_fam
                        var = fresh('l', V(e))
                        v2 += filter_fam(V(e), var, g.cond.subst({self.i: V(var)}), lambda x: vsubst(g.item, {self.i: x}))
                    else:
                        v2.append(s)
                v = v2
            loc_set(self.frame, loc, close_loc(loc, v, {}, self.i, V(e)))
        if p.out[0] == 'return':
            raise Ret(vsubst(p.out[1], mp))
        if p.out[0] == 'raise':
            raise PyRaise(p.out[1], p.out[2])
        return 'break', None, e


def scattered(p, i, names):
    """p is (up to sign) a coordinate minus f(i), f without repeated values."""
    for m, c in p.t.items():
        if len(m) == 1 and isinstance(m[0], App) and m[0].name in lg.INJ and len(m[0].args) == 1 and m[0].args[0] == V(i) and c in (1, -1):
            q = p - Poly({m: c})
            return i not in q.vars() and any(q.linear_in(n) == -c for n in names)
    return False


def psum(d, i, t):
    """Sum of the first t values of d (a function of i); the last one apart when t is i + 1."""
    t = P(t)
    if t == V(i) + 1:
        return psum(d, i, V(i)) + d
    k = fresh('k', t)
    return d.subst({i: V(k)}).sum(k, t)


class RecRule(object):
    def __init__(self, nm, entry, step, i, n):
        self.nm, self.entry, self.i, self.n = nm, entry, i, n
        names = [fresh('a', dsize(d)) for d in entry.dims]
        locs = [(0, V(a)) for a in names]
        self.names = names
        self.zero = entry.at(*locs)
        self.step = step.at(*locs) if step is not None else None

    def __call__(self, b, f):
        from .rewrite import raw
        for k, g in enumerate(f):
            if g.name != self.nm or g.pw < 1:
                continue
            q = g.idx[0]
            if q == P(0):
                t, mp = self.zero, {}
            elif self.step is None:
                continue
            else:
                E = tm.ENGINE
                if not (isinstance((q - 1).single(), str) or q.is_const()) or E.int_nonneg(q - 1) is not True or E.int_nonneg(self.n - q) is not True:
                    continue
                t, mp = self.step, {self.i: q - 1}
            mp.update(dict(zip(self.names, g.idx[1:])))
            left = tuple(f[:k]) + ((tm.F(g.name, g.idx, g.pw - 1),) if g.pw > 1 else ()) + tuple(f[k + 1:])
            return [((tuple(b) + tuple(rb), left + tuple(rf)), c) for (rb, rf), c in raw(t.subst(mp))]
        return None


def free_syms_dims(v):
    s = set()
    for d in v.dims:
        s |= dim_syms(d)
    return s


def close_loc(loc, v, mp, i, e):
    if e is not None:
        mp = {i: e}
    if not mp:
        return v
    if loc[0] == 'cell':
        return v.close(mp)
    if loc[0] == 'list':
        return vsubst(LObj(v), mp).segs
    if isinstance(v, Poison):
        return v
    return vsubst(v, mp)


def rec_val(nm, ix, t, template):
    dims = template.dims

    def fn(*locs):
        idx = list(ix) + [P(t)]
        for d, l in zip(dims, locs):
            idx.append(ar.flat(d, l) if (len(d) > 1 or (d and d[0].r)) else l[1])
        return Term.atom(nm, *idx)
    return Val(dims, fn, template.dtype, template.boolean)


# ------------------------------------------------------------------ statements
def for_loop(frame, st, iterable):
    it = frame.interp
    h = None
    if frame.func is not None:
        h = it.loop_contracts.get((frame.func.qual, 'for'))
    if h is not None:
        r = h(frame, st, iterable)
        if r is not NotImplemented:
            return r
    from .npmodel import aslist
    if isinstance(iterable, Opaque) and iterable.kind == 'ndindex':
        raise Unsupported('loop over ndindex')
    l = aslist(iterable)
    try:
        for s in unrolled(l.segs):
            if s[0] == 'one':
                frame.assign(st.target, s[1])
                try:
                    frame.block(st.body)
                except Cont:
                    pass
            else:
                sym_for(frame, st, s)
    except Brk:
        return
    frame.block(st.orelse)


def unrolled(segs):
    """Families with a small literal number of elements, as elements."""
    out = []
    for s in segs:
        n = P(s[1]).const() if s[0] == 'fam' and P(s[1]).is_const() else None
        if n is not None and 0 <= n <= 3:
            out += [('one', vsubst(s[3], {s[2]: P(k)})) for k in range(int(n))]
        else:
            out.append(s)
    return out


def sym_for(frame, st, seg):
    _, n, v, g = seg
    c = ctx()
    z = c.int_zero(P(n))
    if z is True:
        return

    def body(i):
        frame.assign(st.target, vsubst(g, {v: i}))
        if not L.skipping:
            frame.block(st.body)
            return
        for x in st.body:
            try:
                frame.block([x])
            except (PoisonRead, Infeasible):
                raise
            except Unsupported:
                pass
    L = SymLoop(frame, n, body, 'for line %s' % getattr(st, 'lineno', '?'))
    L.can_skip = True
    paths = L.go()
    r = L.finish(paths)
    if r[0] == 'break':
        raise Brk()


def flags_last(frame, st):
    """while flag and test: body, with a flag that holds at entry  ==>  while test: body; if not flag: break"""
    if not isinstance(st.test, ast.BoolOp) or not isinstance(st.test.op, ast.And) or st.orelse:
        return st

    def flag(e):
        n = e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else e
        return isinstance(n, ast.Name) and isinstance(frame.env.get(n.id), bool) and frame.env[n.id] == (n is e)

    def continues(ss):
        return any(isinstance(s, ast.Continue) or (isinstance(s, ast.If) and (continues(s.body) or continues(s.orelse))) or
                   isinstance(s, (ast.With, ast.Try)) for s in ss)
    fl = [e for e in st.test.values if flag(e)]
    rest = [e for e in st.test.values if not flag(e)]
    if not fl or not rest or continues(st.body):
        return st
    stop = [ast.If(ast.UnaryOp(ast.Not(), e), [ast.Break()], []) for e in fl]
    new = ast.While(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), list(st.body) + stop, [])
    return ast.fix_missing_locations(ast.copy_location(new, st))


def while_loop(frame, st):
    """A loop without a given invariant: as a for loop of K iterations, where the test holds before each of them and fails
    after the last one (partial correctness).  K is solved from the test when that is a bound on the iteration number."""
    c = ctx()
    it = frame.interp
    st = flags_last(frame, st)

    def body(i):
        c.assume(fm(it.ext.as_formula(it, frame.expr(st.test))))
        frame.block(st.body)

    def make(n):
        L = SymLoop(frame, n, body, 'while line %s' % getattr(st, 'lineno', '?'))
        return L, L.go()
    mk = c.mark()
    K = fresh('K')
    NONNEG[K] = 0
    L, paths = make(V(K))
    # the test as a function of the iteration number
    L.install_guess()
    f = fm(it.ext.as_formula(it, frame.expr(st.test)))
    c.rollback(mk)
    n = None
    if f.op == 'ile' and f.a[0].linear_in(L.i) == 1:
        n = V(L.i) - f.a[0] + 1                  # i + q <= 0  iff  i < 1 - q
        if K in n.vars() or L.i in n.vars() or any(x not in NONNEG and x not in RANGES for x in n.vars()):
            n = None
    if n is not None:
        if not c.branch(ILe(0, n)):
            return True
        L, paths = make(n)
    else:
        c.assume(ILe(0, V(K)))
        L, paths = make(V(K))
    r = L.finish(paths)
    if r[0] == 'done' and n is None:
        c.assume(Not(fm(it.ext.as_formula(it, frame.expr(st.test)))))
    return True


# ------------------------------------------------------------------ comprehensions
def comprehension(frame, elt, gens):
    from .npmodel import aslist
    child = Frame(frame.interp, frame.mod, dict(frame.env), frame.func)
    child.outer_envs = [frame.env] + list(getattr(frame, 'outer_envs', ()))
    r = comp(child, elt, gens)
    if any(s[0] == 'flat' for s in r):
        if len(r) != 1:
            raise Unsupported('nested symbolic comprehension')
        return Opaque('flatlist', rows=r[0][1])
    return LObj(r)


def comp(frame, elt, gens):
    from .npmodel import aslist, filter_fam
    g = gens[0]
    it = frame.expr(g.iter)
    if isinstance(it, Opaque) and it.kind == 'ndindex':
        tg = g.target
        if not (isinstance(tg, ast.Tuple) and len(tg.elts) == 2):
            raise Unsupported('comprehension over ndindex')
        mk_ = lambda n: ast.Call(ast.Name('range', ast.Load()), [ip.Lit(I(P(n)))], [])
        return comp(frame, elt, [ast.comprehension(tg.elts[0], mk_(it.sizes[0]), [], 0),
                                 ast.comprehension(tg.elts[1], mk_(it.sizes[1]), g.ifs, 0)] + list(gens[1:]))
    l = aslist(it)
    out = []
    for s in unrolled(l.segs):
        if s[0] == 'one':
            frame.assign(g.target, s[1])
            if not all(frame.interp.ext.truth(frame.interp, frame.expr(t)) for t in g.ifs):
                continue
            if len(gens) > 1:
                out += comp(frame, elt, gens[1:])
            else:
                out.append(('one', frame.expr(elt)))
            continue
        out += comp_fam(frame, elt, gens, s)
    return out


class Skip(object):
    pass


def comp_fam(frame, elt, gens, seg):
    from .npmodel import filter_fam
    _, n, v, gv = seg
    g = gens[0]
    c = ctx()
    it = frame.interp

    def body(i):
        frame.assign(g.target, vsubst(gv, {v: i}))
        for t in g.ifs:
            if not it.ext.truth(it, frame.expr(t)):
                return Skip()
        if len(gens) > 1:
            r = comp(frame, elt, gens[1:])
            if any(s[0] == 'flat' for s in r):
                raise Unsupported('nested symbolic comprehension')
            if any(s[0] != 'one' for s in r):
                return LObj(r)
            return tuple(s[1] for s in r)
        return frame.expr(elt)
    L = SymLoop(frame, n, body, 'comprehension line %s' % getattr(elt, 'lineno', '?'))
    paths = L.go()
    ps = L.normal(paths)
    _, mp, _ = L.finish(paths)
    if not ps:
        return []
    keep = [p for p in ps if not isinstance(p.value, Skip)]
    if not keep:
        return []
    vals = [(And(*p.pc), p.value) for p in keep]
    value = ip.merge_paths(vals)
    if len(gens) > 1:
        if len(keep) != len(ps):
            raise Unsupported('filtered nested comprehension')
        if isinstance(value, LObj):
            if mp:
                value = vsubst(value, mp)
            k = fresh('l', L.n)
            return [('flat', LObj([('fam', I(L.n), k, vsubst(value, {L.i: V(k)}))]))]
        if len(value) == 1:
            value = value[0]
        else:
            raise Unsupported('nested comprehension over a symbolic list')
    if mp:
        value = vsubst(value, mp)
    i = L.i
    if len(keep) == len(ps):
        k = fresh('l', L.n)
        return [('fam', I(L.n), k, vsubst(value, {i: V(k)}))]
    cond = Or(*[pc for pc, _ in vals])
    if mp:
        cond = cond.subst(mp)
    var = fresh('l', L.n)
    return filter_fam(L.n, var, cond.subst({i: V(var)}), lambda x: vsubst(value, {i: x}))
