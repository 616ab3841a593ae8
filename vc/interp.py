"""Symbolic interpreter for the Python source under verification (re-read from the repository on every run)."""
import ast
import builtins
import os
from fractions import Fraction
from .poly import Poly, P, V, App
from . import term as tm
from . import logic as lg
from .term import Term, T
from .logic import Fm, IEq, TRUE, FALSE, And, Or, Not, Implies, Iff, Forall, Exists, RANGES, fresh, ite, indicator
from .ctx import Unsupported, Infeasible, Explorer
from . import arr as ar
from .arr import Arr, Val, PyRaise, I, D, dsize, ctx, G


# ------------------------------------------------------------------ values
class Ext(object):
    """External name (numpy, scipy, builtins ...)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


def shared(v):
    """Mark a mutable value that lives as long as the program (module level, class level, default argument): contracts are
    about one call, so a function that changes such a value is outside of the verifier's reach."""
    if isinstance(v, (LObj, DObj, SetObj, Obj)):
        v.shared = True
    elif hasattr(v, 'cell'):
        v.cell.shared = True
    return v


class Func(object):
    def __init__(self, mod, node, cls=None, closure=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.closure = closure
        self.name = node.name if not isinstance(node, ast.Lambda) else '<lambda>'
        self.qual = mod.name + ':' + ((cls.name + '.') if cls else '') + self.name
        self.kind = 'function'
        self.defaults = None

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Cls(object):
    def __init__(self, mod, node):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.members = {}
        self.bases = []

    def lookup(self, n):
        if n in self.members:
            return self.members[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None


CALL = [0]           # number of the call under verification

# attributes that methods (not only constructors) write, each under contract
WRITTEN = {'Polyhedron': ('A', 'b', 'C', 'd', '_empty', '_bounded', '_radius', '_center', '_vertices'),
           'ModelPredictiveController': ('explicit_solution',), 'LinearSystem': ('_controllable',)}


class Obj(object):

    def __init__(self, cls, attrs=None):
        self.id = next_id()
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.frozen = False
        self.built = False          # made by the constructor of its class
        self.born = CALL[0]

    def set(self, k, v):
        if self.born < CALL[0] and isinstance(self.cls, Cls) and k not in WRITTEN.get(self.cls.name, ()):
            raise Unsupported('an object keeps state between calls (attribute %s)' % k)
        had = k in self.attrs
        old = self.attrs.get(k)
        a = self.attrs

        def undo():
            if had:
                a[k] = old
            else:
                a.pop(k, None)
        ctx().record(undo)
        a[k] = v
        ctx().mutated(('attr', self, k))


class Bound(object):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class ExtMethod(object):
    def __init__(self, obj, name):
        self.obj = obj
        self.name = name


_ids = [0]


def next_id():
    _ids[0] += 1
    return _ids[0]


class PoisonRead(Unsupported):
    """A variable carried by a symbolic loop is read."""

    def __init__(self, env, name):
        Unsupported.__init__(self, 'read of %s, left undefined by a loop' % name)
        self.env, self.name = env, name


class Poison(object):
    """Value that must not be used (left undefined by a symbolic loop)."""

    def __init__(self, why):
        self.why = why


class LObj(object):
    """list: segments ('one', value) or ('fam', count, var, generic value)."""

    def __init__(self, segs=(), tup=False):
        self.segs = list(segs)
        self.id = next_id()

    @staticmethod
    def of(items):
        return LObj([('one', x) for x in items])

    def length(self):
        n = P(0)
        for s in self.segs:
            n = n + (1 if s[0] == 'one' else P(s[1]))
        return I(n)

    def concrete(self):
        return all(s[0] == 'one' for s in self.segs)

    def items(self):
        return [s[1] for s in self.segs]

    def mutate(self, segs):
        old = self.segs
        ctx().record(lambda: setattr(self, 'segs', old))
        self.segs = list(segs)
        ctx().mutated(('list', self, None))


class DObj(object):
    def __init__(self, d=None):
        self.d = dict(d or {})
        self.id = next_id()

    def set(self, k, v):
        had = k in self.d
        old = self.d.get(k)
        d = self.d

        def undo():
            if had:
                d[k] = old
            else:
                d.pop(k, None)
        ctx().record(undo)
        d[k] = v
        ctx().mutated(('item', self, k))


class SetObj(object):
    """set: a list of values (membership), possibly symbolic."""

    def __init__(self, lst):
        self.lst = lst


class RangeObj(object):
    def __init__(self, a, b, c=1):
        self.a, self.b, self.c = P(a), P(b), c


class Str(object):
    """Opaque string."""


class Opaque(object):
    """Value of an external object modelled by a handler table."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class Lit(ast.expr):
    """Expression node holding a value."""

    def __init__(self, value):
        self.value = value
        self.lineno = 0


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


def is_int(x):
    return isinstance(x, (int, Poly)) and not isinstance(x, bool)


def is_num(x):
    return is_int(x) or isinstance(x, (Term, float, Fraction))


def is_bool(x):
    return isinstance(x, (bool, Fm))


def fm(x):
    if isinstance(x, Fm):
        return x
    if x is True or x is False:
        return TRUE if x else FALSE
    raise Unsupported('not a boolean: %r' % (x,))


def B(f):
    """Formula -> python bool if decided."""
    if f.op == 'true':
        return True
    if f.op == 'false':
        return False
    t = ctx().truth(f)
    return f if t is None else t


def drop_head(it, o):
    """Remove (and return) the first element of a list that starts with a family."""
    _, n, v, g = o.segs[0]
    if not it.ext.truth(it, lg.ILt(0, P(n))):
        if len(o.segs) > 1:
            raise Unsupported('head of a list that may be empty')
        raise PyRaise('IndexError')
    nv = fresh('l', P(n) - 1)
    first = vsubst(g, {v: P(0)})
    o.mutate([('fam', I(P(n) - 1), nv, vsubst(g, {v: V(nv) + 1}))] + list(o.segs[1:]))
    return first


def vsubst(x, mp):
    """Substitute index variables in any value."""
    if isinstance(x, Poly):
        return I(x.subst(mp))
    if isinstance(x, (Term, Fm)):
        return x.subst(mp)
    if isinstance(x, Arr):
        r = Arr(x.val().close(mp))
        r.cell.frozen = True
        return r
    if isinstance(x, tuple):
        return tuple(vsubst(y, mp) for y in x)
    if isinstance(x, slice):
        return slice(*[vsubst(y, mp) for y in (x.start, x.stop, x.step)])
    if isinstance(x, LObj):
        out = []
        for s in x.segs:
            if s[0] == 'one':
                out.append(('one', vsubst(s[1], mp)))
            else:
                _, c, v, g = s
                nv = fresh('l')
                out.append(('fam', I(P(c).subst(mp)), nv, vsubst(vsubst(g, {v: V(nv)}), mp)))
                RANGES[nv] = P(out[-1][1])
        return LObj(out)
    if isinstance(x, DObj):
        return DObj({k: vsubst(v, mp) for k, v in x.d.items()})
    if isinstance(x, Obj):
        o = Obj(x.cls, {k: vsubst(v, mp) for k, v in x.attrs.items()})
        o.frozen = True
        o.built = x.built
        return o
    if isinstance(x, RangeObj):
        return RangeObj(x.a.subst(mp), x.b.subst(mp), x.c)
    if isinstance(x, SetObj):
        return SetObj(vsubst(x.lst, mp))
    if hasattr(x, 'parts') and hasattr(x, 'subst'):
        return x.subst(mp)
    if isinstance(x, Opaque):
        if getattr(x, 'shared', False):
            return x
        o = Opaque(x.kind)
        for k, v in x.__dict__.items():
            if k != 'kind':
                setattr(o, k, vsubst(v, mp))
        return o
    if isinstance(x, Bound):
        return Bound(x.func, vsubst(x.self_, mp))
    return x


def vmerge(c, a, b):
    """Value of (a if c else b) for a formula c."""
    if c.op == 'true':
        return a
    if c.op == 'false':
        return b
    if a is b:
        return a
    if is_num(a) and is_num(b):
        if is_int(a) and is_int(b):
            if P(a) == P(b):
                return a
            raise Unsupported('merge of different integers')
        return ite(c, T(a), T(b))
    if is_bool(a) and is_bool(b):
        return B(Or(And(c, fm(a)), And(Not(c), fm(b))))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim:
        va, vb = a.val(), b.val()
        if any(ar.dkey(x) != ar.dkey(y) for x, y in zip(va.dims, vb.dims)):
            al = [ar.align_nobranch(x, y) for x, y in zip(va.dims, vb.dims)]
            va, vb = [Val([q[0] for q in al], (lambda *ls, z=z, w=w: z.at(*[q[w](l) for q, l in zip(al, ls)])), z.dtype, z.boolean)
                      for z, w in ((va, 1), (vb, 2))]
        if all(ar.dkey(x) == ar.dkey(y) for x, y in zip(va.dims, vb.dims)):
            if va.boolean:
                return Arr(Val(va.dims, lambda *l: Or(And(c, va.at(*l)), And(Not(c), vb.at(*l))), va.dtype, True))
            return Arr(Val(va.dims, lambda *l: ite(c, va.at(*l), vb.at(*l)), 'float' if 'float' == va.dtype == vb.dtype else 'any'))
        raise Unsupported('merge of arrays of different shape')
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(vmerge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, DObj) and isinstance(b, DObj) and set(a.d) == set(b.d):
        return DObj({k: vmerge(c, a.d[k], b.d[k]) for k in a.d})
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind and hasattr(a, 'merge'):
        return a.merge(c, a, b)
    if a is None and b is None:
        return None
    if isinstance(a, str) and a == b:
        return a
    if hasattr(a, 'parts') and hasattr(b, 'parts') and a.parts == b.parts:
        return a
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def merge_paths(paths):
    """paths: list of (pc, value) with exhaustive, exclusive conditions."""
    v = paths[-1][1]
    for pc, x in reversed(paths[:-1]):
        v = vmerge(pc, x, v)
    return v


# ------------------------------------------------------------------ modules
class Module(object):
    def __init__(self, interp, name, path):
        self.interp = interp
        self.name = name
        self.path = path
        self.ns = {}
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.loaded = False

    def load(self):
        if self.loaded:
            return
        self.loaded = True
        for st in self.tree.body:
            self.interp.load_stmt(self, st)


class Interp(object):
    def __init__(self, repo, ext):
        self.repo = repo
        self.modules = {}
        self.ext = ext                    # external model: name -> handler(interp, args, kwargs)
        self.contracts = {}               # qualified name -> handler
        self.loop_contracts = {}          # (qualname, ordinal of the while loop) -> handler
        self.executed = set()             # bodies executed
        self.called = set()               # contracts used
        self.depth = 0
        self.loops = []                   # enclosing symbolic loop frames
        self.stack = []

    # ---------------------------------------------------------------- loading
    def module(self, name):
        if name in self.modules:
            m = self.modules[name]
            m.load()
            return m
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(p + '.py'):
            p = p + '.py'
        elif os.path.isfile(os.path.join(p, '__init__.py')):
            p = os.path.join(p, '__init__.py')
        else:
            raise Unsupported('module %s not found' % name)
        m = Module(self, name, p)
        self.modules[name] = m
        m.load()
        return m

    def load_stmt(self, m, st):
        if isinstance(st, ast.FunctionDef):
            m.ns[st.name] = self.mkfunc(m, st)
        elif isinstance(st, ast.ClassDef):
            m.ns[st.name] = self.mkclass(m, st)
        elif isinstance(st, ast.Import):
            for a in st.names:
                if a.name.startswith('pympc'):
                    m.ns[a.asname or a.name.split('.')[0]] = LazyMod(self, a.name if a.asname else 'pympc')
                else:
                    m.ns[a.asname or a.name.split('.')[0]] = Ext(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                n = a.asname or a.name
                if st.module and st.module.startswith('pympc'):
                    m.ns[n] = LazyName(self, st.module, a.name)
                else:
                    m.ns[n] = Ext((st.module or '') + '.' + a.name)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            try:
                fr = Frame(self, m, {})
                fr.env = m.ns
                fr.stmt(st)
                for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                    if isinstance(t, ast.Name) and t.id in m.ns:
                        shared(m.ns[t.id])
            except (Unsupported, AttributeError, PyRaise, TypeError):
                pass
        elif isinstance(st, ast.Try):
            for s in st.body:
                self.load_stmt(m, s)
        elif isinstance(st, ast.If):
            for s in st.body + st.orelse:
                self.load_stmt(m, s)

    def mkfunc(self, m, node, cls=None):
        f = Func(m, node, cls)
        for d in node.decorator_list:
            n = ast.unparse(d)
            if n in ('property', 'staticmethod', 'classmethod'):
                f.kind = n
            elif n.endswith('.setter'):
                f.kind = 'setter'
            else:
                f.kind = 'unknown:' + n
        return f

    def mkclass(self, m, node):
        c = Cls(m, node)
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id in m.ns:
                c.bases.append(m.ns[b.id])
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.mkfunc(m, st, c)
                if f.kind == 'setter':
                    continue
                c.members[st.name] = f
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                try:
                    c.members[st.targets[0].id] = shared(Frame(self, m, {}).expr(st.value))
                except Exception:
                    pass
        return c

    def get(self, module, qual):
        """Function or class by dotted name inside a module."""
        m = self.module(module)
        parts = qual.split('.')
        x = m.ns.get(parts[0])
        x = resolve(x)
        if x is None:
            raise Unsupported('%s not defined in %s' % (qual, module))
        for p in parts[1:]:
            x = x.lookup(p) if isinstance(x, Cls) else None
            if x is None:
                raise Unsupported('%s not defined in %s' % (qual, module))
        return x

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None, verify=False):
        kwargs = kwargs or {}
        f = resolve(f)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            h = None if verify else self.contracts.get(f.qual)
            if h is not None:
                self.called.add(f.qual)
                from .npmodel import tracked
                args, kwargs = self.positional(f, args, kwargs)
                return tracked('the contract of ' + f.qual, h, args, kwargs, self, seen=1 if '.' in f.qual.split(':')[1] else 0)
            return self.run(f, args, kwargs)
        if isinstance(f, Cls):
            o = Obj(f)
            o.built = True
            init = f.lookup('__init__')
            h = self.contracts.get(f.mod.name + ':' + f.name)
            if h is not None:
                self.called.add(f.mod.name + ':' + f.name)
                from .npmodel import tracked
                return tracked('the contract of ' + f.name, h, args, kwargs, self)
            if init is not None:
                self.call(init, [o] + list(args), kwargs)
            return o
        if isinstance(f, (Ext, ExtMethod)):
            return self.ext.call(self, f, list(args), dict(kwargs))
        if callable(f) and getattr(f, 'vc_native', False):
            return f(self, list(args), dict(kwargs))
        raise Unsupported('call of %r' % (f,))

    def positional(self, f, args, kwargs):
        """Keyword arguments made positional as far as the signature allows."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args, kwargs = list(args), dict(kwargs)
        while len(args) < len(names) and names[len(args)] in kwargs:
            args.append(kwargs.pop(names[len(args)]))
        return args, kwargs

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        fr = Frame(self, f.mod, {}, f)
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError', 'too many arguments for ' + f.qual)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyRaise('TypeError', 'multiple values for ' + k)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise('TypeError', 'unexpected keyword ' + k)
        if a.kwarg is not None:
            env[a.kwarg.arg] = DObj(extra)
        nd = len(a.defaults)
        for n, d in zip(names[len(names) - nd:], a.defaults):
            if n not in env:
                env[n] = shared(fr.expr(d))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = shared(fr.expr(d))
        for n in names:
            if n not in env:
                raise PyRaise('TypeError', 'missing argument %s of %s' % (n, f.qual))
        return env

    def run(self, f, args, kwargs):
        if isinstance(f.kind, str) and f.kind.startswith('unknown'):
            raise Unsupported('decorator %s' % f.kind)
        env = self.bind(f, args, kwargs)
        if f.closure:
            base = dict(f.closure)
            base.update(env)
            env = base
        if isinstance(f.node, ast.Lambda):
            return Frame(self, f.mod, env, f).expr(f.node.body)
        self.executed.add(f.qual)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        self.stack.append(f.qual)
        fr = Frame(self, f.mod, env, f)
        try:
            fr.block(f.node.body)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
            self.stack.pop()

    # ---------------------------------------------------------------- names of fresh symbols inside loops
    def fresh_name(self, prefix):
        """(name, index arguments): symbols introduced in a loop body are indexed by the enclosing loops."""
        if not self.loops:
            return fresh(prefix), []
        L = self.loops[-1]
        L['seq'] += 1
        return '%s@%s.%d%s' % (prefix, L['id'], L['seq'], lg.TAG[0]), [ix for fr in self.loops for ix in fr['index']]


class LazyName(object):
    def __init__(self, interp, mod, name):
        self.interp, self.mod, self.name = interp, mod, name


class LazyMod(object):
    def __init__(self, interp, mod):
        self.interp, self.mod = interp, mod


def resolve(x):
    while isinstance(x, LazyName):
        try:
            m = x.interp.module(x.mod)
        except Unsupported:
            return LazyMod(x.interp, x.mod + '.' + x.name)
        if x.name in m.ns:
            x = m.ns[x.name]
        else:
            return LazyMod(x.interp, x.mod + '.' + x.name)
    return x


BUILTINS = {'range', 'len', 'list', 'tuple', 'dict', 'set', 'sum', 'min', 'max', 'abs', 'enumerate', 'zip', 'sorted', 'reversed',
            'any', 'all', 'isinstance', 'float', 'int', 'bool', 'str', 'print', 'map', 'filter', 'type', 'hasattr', 'getattr',
            'round', 'next', 'iter', 'slice', 'object', 'super', 'callable', 'setattr', 'frozenset',
            'ValueError', 'TypeError', 'IndexError', 'KeyError', 'Exception', 'RuntimeError', 'NotImplementedError', 'ZeroDivisionError',
            'ArithmeticError', 'AttributeError', 'AssertionError', 'StopIteration', 'LookupError', 'NameError', 'BaseException'}
EXC_PARENTS = {'ValueError': ['Exception'], 'TypeError': ['Exception'], 'IndexError': ['LookupError', 'Exception'],
               'KeyError': ['LookupError', 'Exception'], 'LinAlgError': ['ValueError', 'Exception'], 'AttributeError': ['Exception'],
               'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'RuntimeError': ['Exception'], 'NameError': ['Exception'],
               'NotImplementedError': ['RuntimeError', 'Exception'], 'AssertionError': ['Exception']}


class Frame(object):
    def __init__(self, interp, mod, env, func=None):
        self.interp = interp
        self.mod = mod
        self.env = env
        self.func = func
        self.whiles = 0

    # ---------------------------------------------------------------- statements
    def block(self, sts):
        for st in sts:
            self.stmt(st)

    def setname(self, n, v):
        env = self.env
        had = n in env
        old = env.get(n)

        def undo():
            if had:
                env[n] = old
            else:
                env.pop(n, None)
        if ctx() is not None:
            ctx().record(undo)
            ctx().mutated(('name', env, n))
        env[n] = v

    def stmt(self, st):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (type(st).__name__, getattr(st, 'lineno', '?')))
        return m(st)

    def s_Pass(self, st):
        pass

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.expr(st.value)

    def s_Return(self, st):
        raise Ret(None if st.value is None else self.expr(st.value))

    def s_Break(self, st):
        raise Brk()

    def s_Continue(self, st):
        raise Cont()

    def s_Assert(self, st):
        if not self.cond(st.test):
            raise PyRaise('AssertionError')

    def s_Import(self, st):
        self.interp.load_stmt(LocalNames(self.env), st)

    s_ImportFrom = s_Import

    def s_Raise(self, st):
        if st.exc is None:
            raise PyRaise('Exception')
        e = st.exc
        if isinstance(e, ast.Call):
            e = e.func
        n = e.id if isinstance(e, ast.Name) else ast.unparse(e)
        raise PyRaise(n.split('.')[-1])

    def s_Try(self, st):
        mk = ctx().mark()
        try:
            self.block(st.body)
        except PyRaise as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = None
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(x).split('.')[-1] for x in h.type.elts]
                else:
                    names = [ast.unparse(h.type).split('.')[-1]]
                if names is None or e.kind in names or any(p in names for p in EXC_PARENTS.get(e.kind, ['Exception'])):
                    if h.name:
                        self.setname(h.name, Str())
                    self.block(h.body)
                    break
            else:
                raise
        else:
            self.block(st.orelse)
        finally:
            if st.finalbody:
                self.block(st.finalbody)

    def s_FunctionDef(self, st):
        f = Func(self.mod, st)
        f.closure = self.env
        self.setname(st.name, f)

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value)
                i = self.expr(t.slice)
                if isinstance(o, LObj) and isinstance(i, int) and o.concrete():
                    s = list(o.segs)
                    del s[i]
                    o.mutate(s)
                elif isinstance(o, LObj) and i == 0 and o.segs and o.segs[0][0] == 'one':
                    o.mutate(o.segs[1:])
                elif isinstance(o, LObj) and i == 0 and o.segs:
                    drop_head(self.interp, o)
                else:
                    raise Unsupported('del')
            else:
                raise Unsupported('del')

    def s_Assign(self, st):
        v = self.expr(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.expr(st.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            its = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, its):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value)
            if isinstance(o, Obj):
                if o.frozen:
                    raise Unsupported('assignment to an attribute of a list element')
                o.set(t.attr, v)
            else:
                raise Unsupported('attribute assignment on %s' % type(o).__name__)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            i = self.index(t.slice)
            self.interp.ext.setitem(self.interp, o, i, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise('ValueError')
            return list(v)
        if isinstance(v, SetObj) and n == 1:
            v = self.interp.ext.aslist(self.interp, v)      # its distinct elements
        if isinstance(v, LObj) and v.concrete():
            if len(v.segs) != n:
                raise PyRaise('ValueError')
            return v.items()
        if isinstance(v, LObj):
            if not ctx().branch(IEq(v.length(), n)):
                raise PyRaise('ValueError')
            return [self.interp.ext.getitem(self.interp, v, k) for k in range(n)]
        raise Unsupported('unpacking')

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id)
        elif isinstance(t, ast.Attribute):
            cur = self.expr(t)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value)
            i = self.index(t.slice)
            cur = self.interp.ext.getitem(self.interp, o, i)
        else:
            raise Unsupported('augmented assignment')
        v = self.expr(st.value)
        if isinstance(cur, LObj) and isinstance(st.op, ast.Add):
            self.interp.ext.extend(self.interp, cur, v)
            return
        new = self.interp.ext.binop(self.interp, type(st.op).__name__, cur, v)
        if isinstance(cur, Arr) and not isinstance(t, ast.Subscript):
            # in place on the array object
            self.interp.ext.write_all(self.interp, cur, new)
            return
        if isinstance(t, ast.Subscript):
            self.interp.ext.setitem(self.interp, o, i, new)
        else:
            self.assign(t, new)

    def cond(self, e):
        """Evaluate a condition and branch on it."""
        return self.interp.ext.truth(self.interp, self.expr(e))

    def s_If(self, st):
        if self.cond(st.test):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def s_With(self, st):
        raise Unsupported('with')

    def pairs(self, e):
        """itertools.combinations(l, 2) and itertools.product(l, m) as nested loops: [(target, iterable), (target, iterable)]"""
        if not (isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute)) and not e.keywords and len(e.args) == 2
                and not any(isinstance(a, ast.Starred) for a in e.args)):
            return None
        r = e.func
        while isinstance(r, ast.Attribute):
            r = r.value
        if not isinstance(r, ast.Name) or not (r.id in self.env or r.id in self.mod.ns):
            return None
        f = self.expr(e.func)
        n = getattr(f, 'name', None) if isinstance(f, Ext) else None
        self.npairs = getattr(self, 'npairs', 0) + 1
        k = '__pair%d_%d' % (self.npairs, len(self.env))
        names = [k + x for x in 'abiuv']
        if n == 'itertools.combinations' and self.expr(e.args[1]) == 2:
            self.env[k + 'a'] = self.interp.ext.aslist(self.interp, self.expr(e.args[0]))
            src = ('enumerate(%sa)' % k, '%sa[%si + 1:]' % (k, k))
            tg = '(%si, %su)' % (k, k)
        elif n == 'itertools.product':
            self.env[k + 'a'] = self.interp.ext.aslist(self.interp, self.expr(e.args[0]))
            self.env[k + 'b'] = self.interp.ext.aslist(self.interp, self.expr(e.args[1]))
            src = (k + 'a', k + 'b')
            tg = k + 'u'
        else:
            return None

        def mk(x):
            y = ast.parse(x).body[0].value
            for z in ast.walk(y):
                ast.copy_location(z, e)
            return y

        def store(x):
            for z in ast.walk(x):
                if hasattr(z, 'ctx'):
                    z.ctx = ast.Store()
            return x
        return store(mk(tg)), mk(src[0]), store(mk(k + 'v')), mk(src[1]), mk('(%su, %sv)' % (k, k)), names

    def generators(self, gens):
        out = []
        for g in gens:
            p = None if g.is_async else self.pairs(g.iter) if not out else None
            if p is None:
                out.append(g)
                continue
            t1, i1, t2, i2, v, names = p
            c = lambda t, i, f: ast.comprehension(target=t, iter=i, ifs=f, is_async=0)
            if isinstance(g.target, ast.Tuple) and len(g.target.elts) == 2:
                a, b = g.target.elts
                if isinstance(t1, ast.Tuple):
                    t1 = ast.copy_location(ast.Tuple(elts=[t1.elts[0], a], ctx=ast.Store()), t1)
                else:
                    t1 = a
                out += [c(t1, i1, []), c(b, i2, g.ifs)]
            else:
                return gens
        return out

    def s_For(self, st):
        p = None
        if not st.orelse and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and not own_break(st.body):
            p = self.pairs(st.iter)
        if p is not None:
            t1, i1, t2, i2, v, names = p
            a, b = st.target.elts
            t1 = ast.copy_location(ast.Tuple(elts=[t1.elts[0], a], ctx=ast.Store()), t1) if isinstance(t1, ast.Tuple) else a
            inner = ast.copy_location(ast.For(target=b, iter=i2, body=st.body, orelse=[], type_comment=None), st)
            outer = ast.copy_location(ast.For(target=t1, iter=i1, body=[inner], orelse=[], type_comment=None), st)
            try:
                self.s_For(outer)
            finally:
                for n in names:
                    self.env.pop(n, None)
            return
        it = self.expr(st.iter)
        self.interp.ext.for_loop(self, st, it)

    def s_While(self, st):
        self.whiles += 1
        key = (self.func.qual if self.func else '', self.whiles)
        h = self.interp.loop_contracts.get(key) or self.interp.loop_contracts.get((key[0], '*'))
        if h is not None:
            return h(self, st)
        for _ in range(200):
            v = self.expr(st.test)
            if isinstance(v, Fm) and B(v) is v:
                if not st.orelse and self.interp.ext.while_loop(self, st):
                    return
                raise Unsupported('while loop without invariant (line %d of %s)' % (st.lineno, self.mod.name))
            if not self.interp.ext.truth(self.interp, v):
                self.block(st.orelse)
                return
            try:
                self.block(st.body)
            except Brk:
                return
            except Cont:
                pass
        raise Unsupported('while loop does not terminate in 200 concrete iterations')

    # ---------------------------------------------------------------- expressions
    def expr(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e)

    def name(self, n):
        if n in self.env:
            v = self.env[n]
            if isinstance(v, Poison):
                raise PoisonRead(self.env, n)
            return resolve(v)
        if n in self.mod.ns:
            return resolve(self.mod.ns[n])
        if n in BUILTINS:
            return Ext('builtins.' + n)
        if hasattr(builtins, n):
            raise Unsupported('builtin %s' % n)
        raise PyRaise('NameError', n)

    def e_Name(self, e):
        return self.name(e.id)

    def e_Lit(self, e):
        return e.value

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return T(v)
        return v

    def e_JoinedStr(self, e):
        return Str()

    def e_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def e_List(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.interp.ext.aslist(self.interp, self.expr(x.value)).segs
            else:
                out.append(('one', self.expr(x)))
        return LObj(out)

    def e_Set(self, e):
        return SetObj(LObj.of(self.elts(e.elts)))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                l = self.interp.ext.aslist(self.interp, self.expr(x.value))
                if not l.concrete():
                    raise Unsupported('starred symbolic list')
                out += l.items()
            else:
                out.append(self.expr(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpacking')
            d[self.key(self.expr(k))] = self.expr(v)
        return DObj(d)

    @staticmethod
    def key(k):
        if isinstance(k, (str, int, tuple)):
            return k
        if isinstance(k, Poly):
            return ('poly', k.key)
        raise Unsupported('dict key %r' % (k,))

    def e_Attribute(self, e):
        return self.interp.ext.getattr(self.interp, self.expr(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.expr(e.value)
        return self.interp.ext.getitem(self.interp, o, self.index(e.slice))

    def index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.expr(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x) for x in s.elts)
        return self.expr(s)

    def e_Slice(self, e):
        return self.index(e)

    def e_BinOp(self, e):
        a = self.expr(e.left)
        b = self.expr(e.right)
        return self.interp.ext.binop(self.interp, type(e.op).__name__, a, b)

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            v = self.expr(e.operand)
            if isinstance(v, Fm):
                return B(Not(v))
            return not self.interp.ext.truth(self.interp, v)
        v = self.expr(e.operand)
        return self.interp.ext.unop(self.interp, type(e.op).__name__, v)

    PURE = (ast.Name, ast.Constant, ast.Attribute)

    def pure(self, e):
        if isinstance(e, ast.UnaryOp):
            return self.pure(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(self.pure(x) for x in e.values)
        if isinstance(e, ast.Attribute):
            return False
        return isinstance(e, (ast.Name, ast.Constant))

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        acc = None
        for n, x in enumerate(e.values):
            v = self.expr(x)
            last = n == len(e.values) - 1
            if isinstance(v, Fm):
                v = B(v)
            if isinstance(v, Fm):
                if last or all(self.pure(y) for y in e.values[n + 1:]):
                    if acc is None:
                        acc = v
                    else:
                        acc = And(acc, v) if isand else Or(acc, v)
                    continue
                t = ctx().branch(v)
                if t != isand:
                    return t
                continue
            t = v if isinstance(v, bool) else None
            if t is None:
                t = self.interp.ext.truth(self.interp, v)
            if t != isand:
                if acc is not None:
                    # the accumulated symbolic prefix did not decide
                    if isinstance(v, bool):
                        return v
                    return v if ctx().branch(acc) == isand else not isand
                return v
            if last:
                if acc is not None:
                    if isinstance(v, bool):
                        return acc
                    return v if ctx().branch(acc) == isand else not isand
                return v
        return acc if acc is not None else isand

    def e_Compare(self, e):
        left = self.expr(e.left)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            x = self.interp.ext.compare(self.interp, type(op).__name__, left, right)
            if res is None:
                res = x
            else:
                res = B(And(fm(res), fm(x)))
            if res is False:
                return False
            left = right
        return res

    def e_IfExp(self, e):
        return self.expr(e.body) if self.cond(e.test) else self.expr(e.orelse)

    def e_Lambda(self, e):
        f = Func(self.mod, e)
        f.closure = self.env
        return f

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'next' and e.args and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            l = self.expr(e.args[0])
            if isinstance(l, LObj):
                return self.interp.ext.first(self, l, (lambda: self.expr(e.args[1])) if len(e.args) > 1 else None)
        f = self.expr(e.func)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value)
                l = self.interp.ext.aslist(self.interp, v)
                if l.concrete():
                    args += l.items()
                else:
                    args.append(StarList(l))
            else:
                args.append(self.expr(x))
        kwargs = {}
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                if not isinstance(v, DObj):
                    raise Unsupported('** of a non-dict')
                kwargs.update(v.d)
            else:
                kwargs[k.arg] = v
        if isinstance(f, Ext) and f.name in ('functools.reduce', 'six.moves.reduce') and not kwargs and len(args) in (2, 3):
            return self.reduce(e, *args)
        return self.interp.call(f, args, kwargs)

    def reduce(self, e, f, l, *init):
        l = self.interp.ext.aslist(self.interp, l)
        if init:
            acc = init[0]
        else:
            if self.interp.ext.truth(self.interp, self.interp.ext.compare(self.interp, 'Eq', l.length(), 0)):
                raise PyRaise('TypeError')
            acc = self.interp.ext.getitem(self.interp, l, 0)
            l = self.interp.ext.getitem(self.interp, l, slice(1, None, None))
        self.nreduce = getattr(self, 'nreduce', 0) + 1
        k = '__reduce%d' % self.nreduce
        self.env[k + 'f'], self.env[k + 'l'], self.env[k + 'a'] = f, l, acc
        st = ast.parse('for %sx in %sl:\n    %sa = %sf(%sa, %sx)' % ((k,) * 6)).body[0]
        for z in ast.walk(st):
            if hasattr(z, 'lineno'):
                ast.copy_location(z, e)
        try:
            self.s_For(st)
            return self.name(k + 'a')
        finally:
            for x in 'flax':
                self.env.pop(k + x, None)

    def e_ListComp(self, e):
        return self.interp.ext.comprehension(self, e.elt, self.generators(e.generators))

    def e_GeneratorExp(self, e):
        return self.interp.ext.comprehension(self, e.elt, self.generators(e.generators))

    def e_SetComp(self, e):
        return SetObj(self.interp.ext.comprehension(self, e.elt, self.generators(e.generators)))

    def e_DictComp(self, e):
        l = self.interp.ext.comprehension(self, ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), self.generators(e.generators))
        if not l.concrete():
            return Opaque('symdict', list=l)
        return DObj({self.key(k): v for k, v in l.items()})


def own_break(body):
    """does the body of a loop contain a break of that loop?"""
    for st in body:
        if isinstance(st, ast.Break):
            return True
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if own_break(getattr(st, 'orelse', [])):
                return True
            continue
        for n in ('body', 'orelse', 'finalbody'):
            if own_break(getattr(st, n, [])):
                return True
        for h in getattr(st, 'handlers', []):
            if own_break(h.body):
                return True
    return False


class LocalNames(object):
    """where an import statement inside a function puts its names"""

    def __init__(self, env):
        self.ns = env


class StarList(object):
    """*symbolic_list in a call."""

    def __init__(self, l):
        self.l = l


def _bad(msg):
    raise Unsupported(msg)
