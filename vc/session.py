"""Scenarios: one function under contract, run on symbolic inputs over all its paths."""
import time
import traceback
from .poly import Poly, P, V, App, A as PA
from . import term as tm
from . import logic as lg
from .term import Term, T
from .logic import (Fm, TRUE, FALSE, And, Or, Not, Implies, Iff, Forall, Exists, RANGES, NONNEG, fresh, ite, indicator, Le, Lt, Ge,
                    Gt, Eq, ILe, ILt, IEq, Pred)
from .ctx import Ctx, Explorer, Unsupported, Infeasible, PathDone, RECURSIVE
from . import arr as ar
from .arr import Arr, Val, PyRaise, I, D, S, R, dsize, G
from . import interp as ip
from .interp import CALL, Interp, LObj, DObj, Obj, Ret, Opaque, PoisonRead, vsubst
from . import npmodel, npfuncs, loops
from .loops import veq, val_eq, list_eq

SCENARIOS = []           # (pid, name, functions, fn, options)


def scenario(pids, name, functions, **opts):
    def deco(f):
        for pid in (pids if isinstance(pids, (list, tuple)) else [pids]):
            SCENARIOS.append((pid, name, list(functions), f, opts))
        return f
    return deco


class Out(object):
    """Outcome of a call: value, or the kind of the exception raised."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None


class Session(object):
    def __init__(self, c, interp):
        self.c = c
        self.it = interp
        self.inputs = []

    # ---- symbolic inputs
    def dim(self, name, lo=0):
        NONNEG[name] = lo
        return V(name)

    def arr(self, name, *sizes, **kw):
        a = ar.inputarr(name, *sizes, **kw)
        if any(x[0] == name for x in self.inputs):
            # two unknown arrays of one name would be equal
            raise ValueError('the scenario names two arrays %s' % name)
        self.inputs.append((name, a, a.val()))
        return a

    def real(self, name):
        return Term.atom(name)

    def obj(self, module, cls, **attrs):
        return Obj(self.it.get(module, cls), attrs)

    def cls(self, module, name):
        return self.it.get(module, name)

    def fam(self, count, f, prefix='l'):
        """List of symbolic length: element k is f(k)."""
        k = fresh(prefix, count)
        return LObj([('fam', I(P(count)), k, f(V(k)))])

    # ---- running code
    def call(self, f, *args, **kw):
        """Run the body of a function of the repository (contracts are used for its callees)."""
        CALL[0] += 1
        try:
            return Out(self.it.call(f, list(args), kw, verify=True))
        except PyRaise as e:
            return Out(exc=e.kind)

    def method(self, o, name, *args, **kw):
        CALL[0] += 1
        m = o.cls.lookup(name)
        if m is None:
            raise Unsupported('no method %s' % name)
        try:
            if m.kind in ('staticmethod',):
                return Out(self.it.call(m, list(args), kw, verify=True))
            return Out(self.it.call(m, [o] + list(args), kw, verify=True))
        except PyRaise as e:
            return Out(exc=e.kind)

    def new(self, cls, *args, **kw):
        CALL[0] += 1
        o = Obj(cls)
        o.built = True
        try:
            init = cls.lookup('__init__')
            if init is not None:
                self.it.call(init, [o] + list(args), kw, verify=True)
            return Out(o)
        except PyRaise as e:
            return Out(exc=e.kind)

    def get(self, o, n):
        CALL[0] += 1
        try:
            return Out(self.it.ext.getattr(self.it, o, n))
        except PyRaise as e:
            return Out(exc=e.kind)

    # ---- logic
    def assume(self, f):
        self.c.assume(f)

    def branch(self, f):
        return self.c.branch(f)

    def prove(self, name, f, timeout=None):
        return self.c.prove(name, f, timeout)

    def lemma(self, name, f):
        return self.c.lemma(name, f)

    def fail(self, name, why):
        """The path itself is the violation unless it is infeasible."""
        self.c.prove(name + ' (' + why + ')', FALSE)

    def expect_raise(self, out, kind, when, name):
        """On this path the call raised: it must be `kind`, exactly when `when`."""
        if out.ok:
            self.prove(name + ': refused when required', Not(when))
        elif out.exc == kind:
            self.prove(name + ': refused only when required', when)
        else:
            self.fail(name, 'raises %s' % out.exc)

    def unchanged(self, name='inputs unchanged'):
        """Frame condition: no symbolic input array was modified."""
        for n, a, v0 in self.inputs:
            v1 = a.cell.val
            if v1 is v0:
                continue
            self.prove('%s: %s' % (name, n), val_eq(v0, v1))


def run_scenario(repo, sc, budget=150.):
    pid, name, functions, fn, opts = sc
    t0 = time.time()
    c = Ctx(timeout=opts.get('timeout', 6000))
    G.ctx = c
    interp = Interp(repo, npmodel.NP())
    c.namer = interp.fresh_name
    res = {'name': name, 'functions': functions, 'status': 'proved', 'reason': '', 'paths': 0, 'infeasible': 0}
    e = Explorer()
    c.partial = []
    done = 0
    reach = False
    while True:
        e.start()
        c.reset_path()
        c.scenario = name
        c.interp = interp
        for k, x in (('calls', []), ('psums', {}), ('powers', {}), ('filters', []), ('nonsing', []), ('posdef', []), ('inverses', []),
                     ('pinvs', []), ('chol', [])):
            setattr(c, k, x)
        for k in ('solve_by_inverse', 'inv_hook', 'pinv_hook', 'rank_hook', 'dare_hook', 'svd_hook', 'qr_hook', 'eig_hook', 'eigvals_hook', 'nnls_hook',
                  'halfspace_hook', 'allclose_hook', 'hull_hook', 'rand_hook', 'grb_model_hook', 'grb_lin_hook', 'grb_quad_hook'):
            if hasattr(c, k):
                delattr(c, k)
        c.explorers = [e]
        interp.loops[:] = []
        interp.stack[:] = []
        interp.depth = 0
        interp.contracts.clear()
        interp.loop_contracts.clear()
        s = Session(c, interp)
        try:
            n0 = len(c.obligations)
            try:
                fn(s)
            except PathDone:
                pass
            res['paths'] += 1
            if len(c.obligations) > n0 and not reach:
                # vacuity: the assumptions of some path with obligations are satisfiable as far as the solver can tell
                sol, _ = c._solver(2000, [], quant=False)
                import z3
                r = sol.check()
                res['reachable'] = str(r)
                if r != z3.unsat:
                    reach = True
        except Infeasible:
            res['infeasible'] += 1
        except Unsupported as ex:
            res['status'] = 'unsupported'
            res['reason'] = str(ex)[:400]
            if opts.get('debug'):
                traceback.print_exc()
        except PyRaise as ex:
            res['status'] = 'unsupported'
            res['reason'] = 'specification undefined on a path: %s' % ex
        except RecursionError:
            res['status'] = 'unsupported'
            res['reason'] = 'recursion depth'
        done += 1
        if done > opts.get('maxpaths', 400):
            res['status'] = 'unsupported'
            res['reason'] = 'too many paths'
            break
        if time.time() - t0 > budget:
            if e.advance():
                res['status'] = 'unsupported'
                res['reason'] = 'time budget of the scenario'
            break
        if not e.advance():
            break
    if c.partial and res['status'] == 'proved':
        res['status'] = 'unsupported'
        res['reason'] = c.partial[0]
    left = [o for o in c.obligations if o.status == 'open']
    if left:
        c.obligations = [o for o in c.obligations if o.status != 'open']
        if res['status'] == 'proved':
            res['status'] = 'unsupported'
            res['reason'] = 'no inductive argument found for a loop: ' + left[0].name
    res['obligations'] = [o.as_dict() for o in c.obligations]
    if not c.obligations and res['status'] == 'proved':
        res['status'] = 'unsupported'
        res['reason'] = 'no obligations were generated'
    if not reach and res['status'] == 'proved':
        res['status'] = 'unsupported'
        res['reason'] = 'vacuous: assumptions contradictory on every path'
    res['executed'] = sorted(interp.executed)
    res['contracts_used'] = sorted(interp.called)
    res['trusted'] = list(c.assumed)
    res['solver_s'] = round(c.solver_s, 3)
    res['queries'] = c.queries
    res['wall_s'] = round(time.time() - t0, 2)
    return res
