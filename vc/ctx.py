"""Verification session: path exploration, assumptions, obligations and their discharge."""
import itertools
import time
import z3
from .poly import Poly, P, V, App
from . import term as tm
from .term import Term, T
from . import logic as lg
from .logic import Fm, TRUE, FALSE, And, Or, Not, Implies, Forall, RANGES, NONNEG, fresh


_epochs = itertools.count(1)
REFUTED = {}


class Unsupported(Exception):
    """The code under verification uses a construct outside the supported subset."""


class Infeasible(Exception):
    """The current path contradicts the assumptions."""


class PathDone(Infeasible):
    """The obligations of this path end here (body of a loop under an invariant)."""


RECURSIVE = set()         # scenarios whose specification is itself a recurrence


class Obligation(object):
    def __init__(self, name, status, backend, secs, goal, model=None, where=None):
        self.name = name
        self.status = status
        self.backend = backend
        self.secs = secs
        self.goal = goal
        self.model = model
        self.where = where

    def as_dict(self):
        return {'name': self.name, 'status': self.status, 'backend': self.backend, 'seconds': round(self.secs, 3),
                'goal': self.goal[:2000], 'model': (self.model or '')[:3000], 'path': self.where}


class Explorer(object):
    """Depth first enumeration of branch decisions by replay."""

    def __init__(self):
        self.prefix = []
        self.trace = []
        self.pos = 0
        self.first = True

    def start(self):
        self.pos = 0
        self.trace = list(self.prefix)

    def decide(self, options):
        """options: list of feasible choices (booleans); returns the one for this replay."""
        if self.pos < len(self.trace):
            c, _ = self.trace[self.pos]
            self.pos += 1
            return c
        c = options[0]
        self.trace.append((c, list(options[1:])))
        self.pos += 1
        return c

    def advance(self):
        while self.trace:
            c, rest = self.trace.pop()
            if rest:
                self.prefix = self.trace + [(rest[0], rest[1:])]
                return True
        return False


class Ctx(object):
    def __init__(self, timeout=10000):
        self.timeout = timeout
        self.obligations = []
        self.namer = None             # names of symbols indexed by the enclosing loops
        self.assumed = []             # names of trusted contracts used
        self.functions = set()        # functions whose bodies were executed
        self.contracts_used = set()
        self.solver_s = 0.
        self.queries = 0
        self.scenario = ''
        self.reset_path()

    def reset_path(self):
        self.facts = []
        self.fkeys = set()
        self.explorers = []
        self.journal = []
        self.decisions = []
        self.version = 0
        self.cache = {}
        self._rules = []
        self._int_solver = None
        self._int_n = 0
        self.hints = []
        self.pc = []
        self.write_hook = None
        self.mutation_log = None
        self.epoch = next(_epochs)
        lg.reset_names()
        tm._fresh[0] = 0
        tm.set_engine(self)

    # ---------------------------------------------------------------- engine interface of the term algebra
    def rules(self):
        return self._rules

    def injective(self, name):
        return name in lg.INJ

    def range_check(self, e, size, others):
        k = ('rc', e.key, size.key, tuple(sorted((w, s.key) for w, s in others.items() if w in e.vars() or w in size.vars())), self.version)
        if k in self.cache:
            return self.cache[k]
        lo = self.int_nonneg(e, others)
        hi = None
        if lo is not False:
            hi = self.int_nonneg(size - 1 - e, others)
        r = True if (lo is True and hi is True) else (False if (lo is False or hi is False) else None)
        self.cache[k] = r
        return r

    def int_zero(self, p):
        k = ('iz', p.key, self.version)
        if k in self.cache:
            return self.cache[k]
        a = self.int_nonneg(p)
        b = self.int_nonneg(-p) if a is not False else None
        if a is True and b is True:
            r = True
        elif a is False or b is False:
            r = False
        else:
            r = None
            if self.int_valid(p, 'ne'):
                r = False
        self.cache[k] = r
        return r

    def int_nonneg(self, p, others=None):
        """True: p >= 0 for all values allowed by the facts; False: p < 0 for all; None: unknown."""
        others = others or {}
        if p.is_const():
            return p.const() >= 0
        k = ('nn', p.key, tuple(sorted((w, s.key) for w, s in others.items() if w in p.vars())), self.version)
        if k in self.cache:
            return self.cache[k]
        r = None
        if self._quick(p, others):
            r = True
        elif self._quick(-p - 1, others):
            r = False
        else:
            if self.int_valid(p, 'ge', others):
                r = True
            elif self.int_valid(-p - 1, 'ge', others):
                r = False
        self.cache[k] = r
        return r

    def _quick(self, p, others, depth=0):
        """Cheap sufficient test for p >= 0."""
        t = dict(p.t)
        bad = None
        low = t.get((), 0)
        for m, c in t.items():
            if m == ():
                continue
            for v in m:
                if isinstance(v, App):
                    if v.name not in lg.APP_RANGE:
                        return False
                elif v not in RANGES and v not in NONNEG and v not in others:
                    return False
            if c < 0:
                bad = (m, c) if bad is None else bad
            elif len(m) == 1 and isinstance(m[0], str) and m[0] in NONNEG:
                low += c * NONNEG[m[0]]
        if bad is None:
            return low >= 0
        if depth > 6:
            return False
        # replace an index variable with negative coefficient by its upper bound
        for v in sorted({v for m, c in t.items() if c < 0 for v in m if isinstance(v, str) and (v in RANGES or v in others)}):
            size = others.get(v, RANGES.get(v))
            ok = True
            q = P(0)
            for m, c in t.items():
                n = sum(1 for w in m if w == v)
                if n > 1 or any(isinstance(w, App) and v in Poly({(w,): 1}).vars() for w in m):
                    ok = False
                    break
                if n == 1 and c > 0:
                    # drop the positive occurrence (>= 0) only if it is a product of nonnegative quantities
                    continue
                x = P(c)
                for w in m:
                    x = x * (size - 1 if w == v else Poly({(w,): 1}))
                q = q + x
            if ok and v not in size.vars() and self._quick(q, others, depth + 1):
                return True
        return False

    def _int_facts(self):
        if self._int_solver is None:
            self._int_solver = z3.Solver()
            self._int_solver.set('timeout', 1500)
            self._int_z = lg.Z3()
            self._int_n = 0
            self._int_vars = set()
        while self._int_n < len(self.facts):
            f = self.facts[self._int_n]
            self._int_n += 1
            if _int_only(f):
                self._int_solver.add(self._int_z.fm(f))
                self._int_vars |= _int_free(f)
        return self._int_solver

    def int_valid(self, p, mode, others=None):
        s = self._int_facts()
        z = self._int_z
        t0 = time.time()
        s.push()
        env = None
        saved = {}
        for w, sz in (others or {}).items():
            if w not in RANGES:
                saved[w] = True
                RANGES[w] = sz
        x = z.poly(p)
        s.add(x < 0 if mode == 'ge' else x == 0)
        used = p.vars()
        # only the indices in scope have a value: those of the query and of the facts
        need = set(used) | self._int_vars
        todo = list(need)
        while todo:
            v = todo.pop()
            if v in RANGES:
                new = RANGES[v].vars() - need
                need |= new
                todo += list(new)
        z.pending = [v for v in z.pending if v in need]
        for w, sz in (others or {}).items():
            if w in used:
                s.add(z.ivar(w) >= 0, z.ivar(w) < z.poly(sz))
        for a in z.flush():
            s.add(a)
        # products of index variables: help nonlinear arithmetic with t*c <= (N-1)*c
        for h in _mul_hints(p, z, others or {}):
            s.add(h)
        r = s.check()
        s.pop()
        for w in saved:
            del RANGES[w]
            z.ivars.pop(w, None)
        # range axioms were asserted inside the scope: assert them again next time
        z.axioms = []
        z.done.clear()
        z.pending = [v for v in z.ivars if v in RANGES]
        for v in z.ivars:
            if v in NONNEG:
                z.axioms.append(z.ivars[v] >= NONNEG[v])
        self.queries += 1
        self.solver_s += time.time() - t0
        return r == z3.unsat

    # ---------------------------------------------------------------- assumptions and branching
    def assume(self, f):
        if f.op == 'true':
            return
        if f.op == 'and':
            for x in f.a[0]:
                self.assume(x)
            return
        if f.op == 'false':
            raise Infeasible()
        if f.key in self.fkeys:
            return
        self.fkeys.add(f.key)
        self.facts.append(f)
        if _int_only(f):
            self.version += 1

    def truth(self, f, quick=True):
        """True/False if the facts decide the formula (integer part only when quick), else None."""
        if f.op == 'true':
            return True
        if f.op == 'false':
            return False
        if f.key in self.fkeys:
            return True
        if Not(f).key in self.fkeys:
            return False
        if f.op == 'ile':
            return self.int_nonneg(-f.a[0])
        if f.op == 'ieq':
            return self.int_zero(f.a[0])
        if f.op == 'not':
            r = self.truth(f.a[0], quick)
            return None if r is None else not r
        if f.op == 'and':
            rs = [self.truth(x, quick) for x in f.a[0]]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if f.op == 'or':
            rs = [self.truth(x, quick) for x in f.a[0]]
            if any(r is True for r in rs):
                return True
            return False if all(r is False for r in rs) else None
        return None

    def branch(self, f):
        t = self.truth(f)
        if t is not None:
            return t
        if not self.explorers:
            raise Unsupported('branch outside of an exploration')
        e = self.explorers[-1]
        if e.pos < len(e.trace):
            c = e.decide(None)
        else:
            opts = []
            if not self.refuted(f):
                opts.append(True)
            if not self.refuted(Not(f)):
                opts.append(False)
            if not opts:
                raise Infeasible()
            c = e.decide(opts)
        g = f if c else Not(f)
        if len(self.explorers) > 1:
            lg.TAG[0] += '.%d' % int(c)
        self.pc.append(g)
        self.assume_skolem(g)
        self.decisions.append(('' if c else 'not ') + f.key[:160])
        return c

    def choose(self, n, what=''):
        """Demonic choice among n alternatives (no formula attached)."""
        if n == 1:
            return 0
        if not self.explorers:
            raise Unsupported('choice outside of an exploration')
        inner = len(self.explorers) > 1 and self.namer is not None
        if inner:
            # inside a loop body the alternative taken is a property of the iteration
            name, ix = self.namer('choice')
        c = self.explorers[-1].decide(list(range(n)))
        if inner:
            fs = [Not(lg.Pred(name, *(list(ix) + [P(k)]))) for k in range(c)]
            if c < n - 1:
                fs.append(lg.Pred(name, *(list(ix) + [P(c)])))
            for f in fs:
                self.pc.append(f)
                self.assume(f)
        if len(self.explorers) > 1:
            lg.TAG[0] += '.c%d' % c
        self.decisions.append('%s#%d' % (what, c))
        return c

    def epoch_bump(self):
        self.epoch = next(_epochs)

    def mutated(self, key):
        if getattr(key[1], 'shared', False):
            raise Unsupported('a function keeps state between calls')
        if self.mutation_log is not None:
            self.mutation_log.append(key)

    def explore(self, run):
        """Sub-exploration (loop bodies): run() once per path, each rolled back.  Returns the list of results of run,
        called as run() with fresh decisions; every result is computed before the rollback."""
        e = Explorer()
        out = []
        n0, tag0 = lg._n[0], lg.TAG[0]
        nmax = n0
        npaths = 0
        while True:
            e.start()
            lg._n[0], lg.TAG[0] = n0, tag0
            mk = self.mark()
            self.explorers.append(e)
            try:
                out.append(run(mk))
            except Infeasible:
                pass
            finally:
                self.explorers.pop()
                self.rollback(mk)
                nmax = max(nmax, lg._n[0])
                lg._n[0], lg.TAG[0] = nmax, tag0
            npaths += 1
            if npaths > 200:
                raise Unsupported('too many paths in a loop body')
            if not e.advance():
                return out

    def refuted(self, f):
        """Is the formula inconsistent with the facts?  (sound; incomplete)"""
        if not _int_only(f) and not any(not _int_only(g) for g in self.facts):
            return False
        # the same question comes back on every path that shares the prefix (names are deterministic)
        k = (f.key, frozenset(self.fkeys))
        if k not in REFUTED:
            s, z = self._solver(2000, [f])
            t0 = time.time()
            r = s.check()
            self.queries += 1
            self.solver_s += time.time() - t0
            REFUTED[k] = r == z3.unsat
        return REFUTED[k]

    # ---------------------------------------------------------------- journal for undo
    def record(self, undo):
        self.journal.append(undo)

    def mark(self):
        return len(self.journal), len(self.facts), set(self.fkeys), len(self.decisions), len(self._rules), len(self.pc)

    def rollback(self, m):
        while len(self.journal) > m[0]:
            self.journal.pop()()
        if len(self.facts) > m[1]:
            del self.facts[m[1]:]
            self.fkeys = set(m[2])
            self.version += 1
            self._int_solver = None
            self.epoch = next(_epochs)
        del self.decisions[m[3]:]
        if len(self._rules) > m[4]:
            del self._rules[m[4]:]
            self.epoch = next(_epochs)
        del self.pc[m[5]:]

    # ---------------------------------------------------------------- proving
    def _candidates(self, extra):
        c = {}
        for f in extra:
            for v in _free_index(f):
                if v in RANGES:
                    c[v] = RANGES[v]
        return c

    def _ground(self, f, cands, sk, depth=0):
        """A ground consequence of the formula: universal quantifiers (in positive position) become the conjunction of their
        instances at the candidate indices, existential ones fresh constants (the same at every round)."""
        o = f.op
        if o in ('and', 'or'):
            mk = And if o == 'and' else lg.Or
            return mk(*[self._ground(x, cands, sk, depth) for x in f.a[0]])
        if o == 'exists':
            k = f.key
            if k not in sk:
                mp = {}
                for v, s in f.a[0]:
                    w = fresh('w')
                    mp[v] = V(w)
                    sk.setdefault('new', []).append((V(w), s.subst(mp)))
                sk[k] = mp
            mp = sk[k]
            rngs = []
            m2 = {}
            for v, s in f.a[0]:
                rngs += [lg.ILe(0, mp[v]), lg.ILt(mp[v], s.subst(m2))]
                m2[v] = mp[v]
            return And(*(rngs + [self._ground(f.a[1].subst(mp), cands, sk, depth)]))
        if o == 'forall':
            out = []
            combos = [{}]
            for v, s in f.a[0]:
                nxt = []
                for c in combos:
                    s2 = s.subst(c)
                    opts = [p for p, sz in cands if sz is None or sz.key == s2.key or s2.key in _parents(sz)]
                    for p, sz in cands:
                        if sz is not None and sz.key != s2.key:
                            opts += [p + o for o in _offsets(s2, sz)]
                            opts += [p - o for o in _offsets(sz, s2)]
                    if not opts:
                        opts = [p for p, sz in cands][:6]
                    nxt += [dict(c, **{v: p}) for p in opts]
                combos = nxt[:120]
            seen = set()
            for c in combos:
                rngs = And(*[And(lg.ILe(0, c[v]), lg.ILt(c[v], s.subst(c))) for v, s in f.a[0]])
                if rngs.op == 'false' or self.truth(rngs) is False:
                    continue
                if self.truth(rngs) is True:
                    rngs = lg.TRUE
                g = Implies(rngs, f.a[1].subst(c))
                if g.key in seen:
                    continue
                seen.add(g.key)
                if depth < 2:
                    g = self._ground(g, cands, sk, depth + 1)
                out.append(g)
            return And(*out)
        return f

    def _solver(self, timeout, goals, quant=True, insts=True, linear=False):
        z = lg.Z3(linear)
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', 1)
        facts = list(self.facts)
        cset = {}

        def size_of(p):
            return RANGES.get(p.single()) if isinstance(p.single(), str) else None

        def collect(fs):
            for f in fs:
                for p in _index_polys(f):
                    cset.setdefault(p.key, (p, size_of(p)))
        collect(list(goals) + facts)
        for p in self.hints:
            cset.setdefault(p.key, (p, size_of(p)))
        all_f = list(goals) + facts
        if insts:
            sk = {}
            rounds = 2 if any(_nested(f) for f in all_f) else 1
            for r in range(rounds + 1):
                cands = list(cset.values())[:40]
                n0 = len(cset)
                gr = [self._ground(f, cands, sk) for f in all_f]
                new = sk.pop('new', [])
                for p, sz in new:
                    cset.setdefault(p.key, (p, sz))
                if len(cset) == n0 or not new:
                    break
            fs = gr + ([f for f in all_f if f.op == 'forall' or _nested(f)] if quant else [])
        else:
            fs = all_f
        seen = set()
        for f in fs:
            if f.key in seen:
                continue
            seen.add(f.key)
            s.add(z.fm(f))
        for _ in range(3):
            ax = z.flush()
            if not ax:
                break
            for a in ax:
                s.add(a)
        return s, z

    def check(self, goal, timeout=None):
        """Returns (discharged?, backend, model text).  Does not record an obligation."""
        if goal.op == 'true':
            return True, 'normal-form', None
        t = self.truth(goal)
        if t is True:
            return True, 'facts', None
        if goal.op == 'and':
            be = 'normal-form'
            for x in goal.a[0]:
                ok, b, m = self.check(x, timeout)
                if not ok:
                    return ok, b, m
                if b != 'normal-form':
                    be = b
            return True, be, None
        if goal.op == 'forall':
            mk = self.mark()
            mp = {}
            for v, s in goal.a[0]:
                nv = fresh('s', s.subst(mp))
                mp[v] = V(nv)
            try:
                return self.check(goal.a[1].subst(mp), timeout)
            except Infeasible:
                return True, 'facts', None
            finally:
                self.rollback(mk)
        if goal.op == 'or':
            # move the negations of all but one disjunct into the facts
            parts = sorted(goal.a[0], key=lambda f: 0 if f.op in ('forall', 'and') else (1 if f.op in ('eq', 'le', 'lt') else 2))
            mk = self.mark()
            try:
                for x in parts[1:]:
                    self.assume_skolem(Not(x))
                if parts[0].op in ('forall', 'and'):
                    return self.check(parts[0], timeout)
                return self._z3check(parts[0], timeout)
            except Infeasible:
                return True, 'facts', None
            finally:
                self.rollback(mk)
        return self._z3check(goal, timeout)

    def assume_skolem(self, f):
        """Assume a formula, replacing outer existentials by fresh constants."""
        if f.op == 'exists':
            mp = {}
            for v, s in f.a[0]:
                nv = fresh('e', s.subst(mp))
                mp[v] = V(nv)
                self.assume(lg.ILt(0, RANGES[nv]))
            self.assume_skolem(f.a[1].subst(mp))
        elif f.op == 'and':
            for x in f.a[0]:
                self.assume_skolem(x)
        else:
            self.assume(f)

    def _z3check(self, goal, timeout):
        if goal.op == 'eq':
            g = goal.a[0].renorm()
            if g.is_zero():
                return True, 'normal-form', None
            goal = lg._cmp('eq', g)
        if goal.op in ('eq', 'le', 'lt'):
            g = self.prune(goal.a[0])
            if g is not goal.a[0]:
                goal = lg._cmp(goal.op, g)
                if goal.op == 'true':
                    return True, 'z3', None
        t0 = time.time()
        model = None
        try:
            tmo = timeout or self.timeout
            for quant, tmo, linear in ((False, min(tmo, 3000), True), (False, tmo // 2, False), (True, tmo, False)):
                if not quant and not linear and not products:
                    continue
                s, z = self._solver(tmo, [Not(goal)], quant, linear=linear)
                products = z.products
                r = s.check()
                self.queries += 1
                if r == z3.unsat:
                    return True, 'z3', None
                if not quant and r == z3.sat:
                    try:
                        model = str(s.model())[:3000]
                    except z3.Z3Exception:
                        model = None
                if r == z3.unknown:
                    model = model or ('z3: ' + s.reason_unknown())
            return False, 'z3', model
        finally:
            self.solver_s += time.time() - t0

    def prune(self, t):
        """Drop the sums over indices that the facts exclude (a factor [i = j] that is never 1)."""
        if not any(f.op == 'forall' for f in self.facts):
            return t
        out = None
        for mo, c in list(t.m.values()):
            if not mo.bound or not any(f.name == tm.DELTA for f in mo.factors):
                continue
            bd, fs = mo.rename_apart()
            mp = {}
            cond = []
            for v, s in bd:
                w = fresh('z')
                mp[v] = V(w)
                cond += [lg.ILe(0, V(w)), lg.ILt(V(w), s.subst(mp))]
            for f in fs:
                if f.name == tm.DELTA:
                    cond.append(lg.IEq(f.idx[0].subst(mp), 0))
                elif f.name == tm.GE:
                    cond.append(lg.ILe(0, f.idx[0].subst(mp)))
            hints = self.hints
            self.hints = list(hints) + list(mp.values())
            try:
                if self.refuted(And(*cond)):
                    one = Term.make([((tuple(bd), tuple(fs)), c)])
                    out = (t if out is None else out) - one
            finally:
                self.hints = hints
        return t if out is None else out

    def prove(self, name, goal, timeout=None):
        t0 = time.time()
        try:
            ok, be, model = self.check(goal, timeout)
            if not ok:
                ok, be, model = self._with_equalities(goal, timeout, be, model)
        except Infeasible:
            ok, be, model = True, 'facts', None
        o = Obligation(name, 'discharged' if ok else 'failed', be, time.time() - t0,
                       goal.key, model, self.scenario + ' / ' + '; '.join(self.decisions)[-1500:])
        if not ok:
            # values of a loop known only by their recurrence: a proof by induction may exist that was not found
            if self.scenario not in RECURSIVE and ('rec~' in goal.key or any('rec~' in f.key for f in self.facts)):
                o.status = 'open'
        self.obligations.append(o)
        return ok

    def _with_equalities(self, goal, timeout, be, model):
        """Once more, with the symbols that the facts equate with others eliminated everywhere (sizes of sums too)."""
        mp = {}
        for f in self.facts:
            if f.op != 'ieq':
                continue
            p = f.a[0].subst(mp)
            for x in sorted(p.vars(), reverse=True):
                c = p.t.get((x,))
                if c in (1, -1) and sum(1 for m in p.t if x in m) == 1 and not any(x in a.vars() for m in p.t for y in m if isinstance(y, App) for a in y.args):
                    e = (p - V(x) * c) * (-c)
                    mp = {y: q.subst({x: e}) for y, q in mp.items()}
                    mp[x] = e
                    break
        if not mp:
            return False, be, model
        saved = self.facts, self.fkeys, self.version
        self.facts, self.fkeys = [], set()
        self.version += 1
        self._int_solver = None
        self.epoch = next(_epochs)
        try:
            for f in saved[0]:
                self.assume(f.subst(mp))
            for x, e in mp.items():
                self.assume(lg.IEq(V(x), e))
            ok, b, m = self.check(goal.subst(mp), timeout)
        except Infeasible:
            ok, b, m = True, 'facts', None
        finally:
            self.facts, self.fkeys = saved[0], saved[1]
            self.version += 1
            self._int_solver = None
            self.epoch = next(_epochs)
        return (True, b, None) if ok else (False, be, model)

    def lemma(self, name, goal):
        """Prove, then use."""
        ok = self.prove(name, goal)
        if ok:
            self.assume(goal)
        return ok


def _int_only(f):
    if f.op in ('true', 'false', 'ile', 'ieq'):
        return True
    if f.op == 'not':
        return _int_only(f.a[0])
    if f.op in ('and', 'or'):
        return all(_int_only(x) for x in f.a[0])
    return False


def _int_free(f):
    if f.op in ('ile', 'ieq'):
        return f.a[0].vars()
    if f.op == 'not':
        return _int_free(f.a[0])
    if f.op in ('and', 'or'):
        return set().union(*[_int_free(x) for x in f.a[0]])
    return set()


def _offsets(total, part):
    """A range of the size `part` inside one of size `total` = sum of several sizes: possible first positions."""
    if part.is_const() or total.is_const():
        return []
    rest = total - part
    if len(rest.t) == 0 or any(c < 0 for c in rest.t.values()) or sum(rest.t.values()) > 6:
        return []
    out = [P(0)]
    for m, c in rest.t.items():
        out = [o + Poly({m: k}) if k else o for o in out for k in range(int(c) + 1)]
    return out[:12]


def _parents(sz):
    """Keys of the ranges a size that is itself an index lies in (below[j < i], i < n)."""
    out = []
    for _ in range(3):
        x = sz.single()
        if isinstance(x, str):
            sz = RANGES.get(x)
        elif isinstance(x, App) and x.name in lg.APP_SIZE:
            sz = lg.APP_SIZE[x.name](x.args)
        else:
            break
        if sz is None:
            break
        out.append(sz.key)
    return out


def _nested(f):
    """Does an existential occur below the top level?"""
    if f.op == 'exists':
        return True
    if f.op == 'forall':
        return _nested(f.a[1])
    if f.op in ('and', 'or'):
        return any(_nested(x) for x in f.a[0])
    return False


def _term_polys(t, out):
    for mo, _ in t.m.values():
        bvs = {v for v, _ in mo.bound}
        for f in mo.factors:
            for i in f.idx:
                if not (i.vars() & bvs) and f.name not in (tm.DELTA, tm.GE, tm.INTF):
                    out[i.key] = i
                else:
                    for w in i.vars() - bvs:
                        if w in RANGES:
                            out[w] = V(w)


def _index_polys(f, out=None):
    """Ground index polynomials occurring in a formula (candidates for instantiation)."""
    top = out is None
    out = {} if out is None else out
    if f.op in ('le', 'lt', 'eq'):
        _term_polys(f.a[0], out)
    elif f.op in ('ile', 'ieq'):
        for v in f.a[0].vars():
            if v in RANGES:
                out[v] = V(v)
    elif f.op == 'not':
        _index_polys(f.a[0], out)
    elif f.op in ('and', 'or'):
        for x in f.a[0]:
            _index_polys(x, out)
    elif f.op in ('forall', 'exists'):
        sub = {}
        _index_polys(f.a[1], sub)
        qv = {v for v, _ in f.a[0]}
        for k, p in sub.items():
            if not (p.vars() & qv):
                out[k] = p
    elif f.op == 'pred':
        for x in f.a[1]:
            if isinstance(x, Poly):
                out[x.key] = x
            else:
                _term_polys(x, out)
    return list(out.values()) if top else out


def _free_index(f):
    s = set()
    for p in _index_polys(f):
        s |= p.vars()
    return s


def _mul_hints(p, z, others):
    """For each product v*w with v an index variable of range N: (N-1-v)*w >= 0 and v*w >= 0 when w >= 0."""
    out = []
    for m in p.t:
        if len(m) < 2:
            continue
        for i, v in enumerate(m):
            if isinstance(v, str) and (v in RANGES or v in others):
                size = others.get(v, RANGES.get(v))
                w = Poly({tuple(m[:i] + m[i + 1:]): 1})
                if all((isinstance(x, str) and (x in RANGES or x in NONNEG or x in others)) or (isinstance(x, App) and x.name in lg.APP_RANGE) for x in w.t and list(w.t)[0]):
                    out.append(z.poly(w * (size - 1 - V(v))) >= 0)
                    out.append(z.poly(w * V(v)) >= 0)
    return out
