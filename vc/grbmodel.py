"""gurobipy: expressions are functions of a generic point X; a model collects variables, constraints and the objective.

Trusted contract of the dependency (nothing is said about how the optimizer works): arithmetic on variables builds the expression
it says, `<=`, `>=`, `==` build the constraint it says, the names of constraints identify them, changes are visible after update()
or optimize(), minimization unless stated otherwise, and after optimize() with status OPTIMAL the attributes X, ObjVal, Pi, CBasis
are those of the posed program."""
from .npmodel import *
from .npmodel import OPAQUE, trust
from . import npfuncs as nf
from . import npmodel as nm
from .ctx import Unsupported
from .logic import Pred

CONST = {'gurobipy.GRB.INFINITY': Term.const(10 ** 100),
         'gurobipy.GRB.BINARY': 'B', 'gurobipy.GRB.CONTINUOUS': 'C', 'gurobipy.GRB.INTEGER': 'I',
         'gurobipy.GRB.MINIMIZE': 1, 'gurobipy.GRB.MAXIMIZE': -1, 'gurobipy.GRB.LESS_EQUAL': '<', 'gurobipy.GRB.GREATER_EQUAL': '>',
         'gurobipy.GRB.EQUAL': '='}
for _k, _v in (('LOADED', 1), ('OPTIMAL', 2), ('INFEASIBLE', 3), ('INF_OR_UNBD', 4), ('UNBOUNDED', 5), ('SUBOPTIMAL', 13)):
    CONST['gurobipy.GRB.' + _k] = _v
    CONST['gurobipy.GRB.Status.' + _k] = _v


# parameters that do not change what an optimal answer is, and the defaults of the tolerances (larger: not the stated program)
HARMLESS = ('OutputFlag', 'LogToConsole', 'LogFile', 'Threads', 'Method', 'Seed', 'Presolve', 'TimeLimit', 'IterationLimit', 'BarIterLimit',
            'NodeLimit', 'NumericFocus', 'NonConvex', 'DualReductions', 'InfUnbdInfo', 'ScaleFlag', 'Heuristics', 'Cuts', 'MIPFocus', 'DisplayInterval')
TOLERANCES = {'BarConvTol': 1e-8, 'BarQCPConvTol': 1e-6, 'FeasibilityTol': 1e-6, 'OptimalityTol': 1e-6, 'IntFeasTol': 1e-5, 'MIPGap': 1e-4,
              'MIPGapAbs': 1e-10, 'MarkowitzTol': 0.0078125}


def set_param(it, st, name, value):
    if not isinstance(name, str):
        raise Unsupported('solver parameter')
    if name in HARMLESS:
        return None
    if name not in TOLERANCES:
        raise Unsupported('solver parameter ' + name)
    v = T(value)
    if not v.is_const():
        raise Unsupported('solver parameter ' + name)
    if v.constval() > T(TOLERANCES[name]).constval():
        st['loose'] = name
    return None


def merge_expr(c, a, b):
    return expr(vmerge(c, term(a), term(b)))


def expr(t):
    return Opaque('grbexpr', cell=LObj.of([T(t)]), merge=merge_expr)


def isx(o):
    return isinstance(o, Opaque) and o.kind in ('grbexpr', 'grbvar')


def term(o):
    if isinstance(o, Opaque):
        if o.kind == 'grbexpr':
            return o.cell.segs[0][1]
        if o.kind == 'grbvar':
            return Term.atom('X', P(o.idx))
    if is_num(o):
        return nm.num(o)
    raise Unsupported('gurobi expression from %s' % type(o).__name__)


def binop(it, op, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Arr) or isinstance(x, (LObj, tuple)) or x is None:
            raise Unsupported('%s of a gurobi expression and %s' % (op, type(x).__name__))
    x, y = term(a), term(b)
    if op == 'Add':
        return expr(x + y)
    if op == 'Sub':
        return expr(x - y)
    if op == 'Mult':
        return expr(x * y)
    if op == 'Div' and not isx(b):
        return expr(nm.num_op('Div', x, y, b))
    if op == 'Pow' and b == 2:
        return expr(x * x)
    raise Unsupported('%s on gurobi expressions' % op)


def compare(it, op, a, b):
    g = term(a) - term(b)
    if not isx(a):
        g, op = -g, {'LtE': 'GtE', 'GtE': 'LtE', 'Eq': 'Eq'}.get(op, op)
    if op not in ('LtE', 'GtE', 'Eq'):
        raise Unsupported('comparison %s of gurobi expressions' % op)
    return Opaque('grbcon', g=g, sense={'LtE': '<', 'GtE': '>', 'Eq': '='}[op])


def famsum(it, s):
    _, n, v, g = s
    return expr(nf.fam_sum(it, (s[0], n, v, term(g))))


def expr_call(it, o, n, a, k):
    if n == 'add':
        m = T(nm.num(a[1] if len(a) > 1 else k.get('mult', 1)))
        o.cell.mutate([('one', term(o) + m * term(a[0]))])
        return None
    if n == 'addConstant':
        o.cell.mutate([('one', term(o) + term(a[0]))])
        return None
    if n == 'copy':
        return expr(term(o))
    raise Unsupported('method %s of a gurobi expression' % n)


def new_expr(it, a, k):
    trust('gurobipy: expressions and models mean what their operators say; attributes after optimize() are those of the posed program')
    if not a:
        return expr(T(0))
    if len(a) == 2:
        c, x = aslist(a[0]), aslist(a[1])
        raise Unsupported('LinExpr(coefficients, variables)')
    return expr(term(a[0]))


def new_model(it, a, k):
    trust('gurobipy: expressions and models mean what their operators say; attributes after optimize() are those of the posed program')
    m = Opaque('grbmodel', st={'n': None, 'pending': False, 'solved': False, 'obj': None, 'sense': 1, 'lb': None, 'ub': None,
                               'vtype': 'C', 'status': None}, cons=LObj([]), attrs=LObj([]), shared=True)
    ctx().grb_models = getattr(ctx(), 'grb_models', []) + [m]
    return m


def fixed(it):
    if it.loops:
        raise Unsupported('gurobi model changed in a loop')


def model_call(it, o, n, a, k):
    st = o.st
    c = ctx()
    if n == 'addVars':
        fixed(it)
        if st['n'] is not None or len(a) != 1 or not is_int(a[0]):
            raise Unsupported('addVars')
        st['n'] = P(a[0])
        for q in ('lb', 'ub', 'vtype'):
            if q in k:
                st[q] = k[q]
        st['pending'] = True
        return Opaque('grbvars', model=o)
    if n in ('addConstr', 'addLConstr'):
        x = a[0]
        if not (isinstance(x, Opaque) and x.kind == 'grbcon'):
            raise Unsupported('addConstr form')
        name = a[1] if len(a) > 1 else k.get('name', '')
        o.cons.mutate(list(o.cons.segs) + [('one', (x.g, x.sense, name))])
        st['pending'] = True
        return None
    if n == 'setObjective':
        fixed(it)
        st['obj'] = term(a[0])
        st['sense'] = a[1] if len(a) > 1 else k.get('sense', 1)
        return None
    if n == 'setParam':
        return set_param(it, st, a[0], a[1])
    if n in ('write', 'reset', 'dispose'):
        return None
    if n == 'update':
        fixed(it)
        st['pending'] = False
        return None
    if n == 'optimize':
        fixed(it)
        st['pending'] = False
        st['solved'] = True
        st['status'] = (2, 3, 13)[c.choose(3, 'status')]
        st['posed'] = (list(o.cons.segs), list(o.attrs.segs), st['obj'], st['sense'])
        return None
    if n == 'getVars':
        if st['pending']:
            return LObj([])
        i = fresh('l', st['n'])
        return LObj([('fam', I(st['n']), i, Opaque('grbvar', idx=V(i), model=o))])
    if n == 'getAttr' and isinstance(a[0], str):
        return attr(it, o, a[0])
    if n == 'getConstrByName':
        return by_name(it, o, a[0])
    raise Unsupported('method %s of a gurobi model' % n)


def by_name(it, o, name):
    c = ctx()
    if o.st['pending']:
        return None
    parts = tuple(name.parts) if isinstance(name, SStr) else (name,)
    for q, s in enumerate(o.cons.segs):
        g, sense, nme = s[1] if s[0] == 'one' else s[3]
        p = tuple(nme.parts) if isinstance(nme, SStr) else (nme,)
        if len(p) != len(parts) or any(isinstance(x, str) != isinstance(y, str) or (isinstance(x, str) and x != y) for x, y in zip(p, parts)):
            continue
        eqs = [(P(x), P(y)) for x, y in zip(p, parts) if not isinstance(x, str)]
        if s[0] == 'one':
            if c.branch(And(*[IEq(x, y) for x, y in eqs])):
                return Opaque('grbconstr', seg=q, idx=P(0), model=o)
            continue
        if len(eqs) != 1 or s[2] not in eqs[0][0].vars() or s[2] in (eqs[0][0] - V(s[2])).vars():
            raise Unsupported('constraint names')
        kk = eqs[0][1] - (eqs[0][0] - V(s[2]))
        if c.branch(And(ILe(0, kk), ILt(kk, P(s[1])))):
            return Opaque('grbconstr', seg=q, idx=kk, model=o)
    return None


def attr(it, o, n):
    st = o.st
    n = n.lower()
    if n == 'status':
        if not st['solved']:
            return 1
        return st['status']
    if n in ('objval', 'x', 'pi'):
        if not st['solved'] or st['status'] == 3:
            raise PyRaise('AttributeError', n)
        if n == 'objval':
            return Term.atom('ObjVal')
        if n == 'x':
            i = fresh('l', st['n'])
            return LObj([('fam', I(st['n']), i, Term.atom('Xopt', V(i)))])
        raise Unsupported('Pi of all constraints')
    if n == 'numvars':
        return I(st['n'])
    raise Unsupported('gurobi attribute %s' % n)


def model_getattr(it, o, n):
    if n.lower() in ('status', 'objval', 'x', 'numvars'):
        return attr(it, o, n)
    return ExtMethod(o, n)


def vars_getitem(it, o, i):
    c = ctx()
    if not is_int(i):
        raise Unsupported('index of gurobi variables')
    i = P(i)
    n = o.model.st['n']
    if not c.branch(And(ILe(0, i), ILt(i, n))):
        raise PyRaise('KeyError')
    return Opaque('grbvar', idx=i, model=o.model)


def vars_aslist(o):
    raise Unsupported('iteration over the keys of gurobi variables')


def vars_call(it, o, n, a, k):
    n_ = o.model.st['n']
    i = fresh('l', n_)
    if n == 'values':
        return LObj([('fam', I(n_), i, Opaque('grbvar', idx=V(i), model=o.model))])
    if n == 'items':
        return LObj([('fam', I(n_), i, (I(V(i)), Opaque('grbvar', idx=V(i), model=o.model)))])
    raise Unsupported('tupledict.%s' % n)


def var_call(it, o, n, a, k):
    if n == 'setAttr':
        o.model.attrs.mutate(list(o.model.attrs.segs) + [('one', (I(P(o.idx)), a[0].lower() if isinstance(a[0], str) else a[0], a[1]))])
        return None
    if n == 'getAttr':
        return var_getattr(it, o, a[0])
    raise Unsupported('method %s of a gurobi variable' % n)


def var_getattr(it, o, n):
    if n.lower() == 'x':
        if not o.model.st['solved'] or o.model.st['status'] == 3:
            raise PyRaise('AttributeError', n)
        return Term.atom('Xopt', P(o.idx))
    return ExtMethod(o, n)


def con_attr(it, o, n):
    st = o.model.st
    if not st['solved'] or st['status'] != 2:
        raise PyRaise('AttributeError', n)
    if n.lower() == 'pi':
        return Term.atom('Pi%d' % o.seg, P(o.idx))
    if n.lower() == 'slack':
        return Term.atom('Slack%d' % o.seg, P(o.idx))
    if n.lower() == 'cbasis':
        return Opaque('cbasis', seg=o.seg, idx=o.idx)
    raise Unsupported('attribute %s of a constraint' % n)


def con_call(it, o, n, a, k):
    if n == 'getAttr':
        return con_attr(it, o, a[0])
    raise Unsupported('method %s of a constraint' % n)


def con_getattr(it, o, n):
    if n.lower() in ('pi', 'cbasis', 'slack'):
        return con_attr(it, o, n)
    return ExtMethod(o, n)


def basis_compare(it, op, a, b):
    x, y = (a, b) if isinstance(a, Opaque) else (b, a)
    if op in ('Eq', 'NotEq') and y in (-1, 0):
        # basis status of the slack of an inequality: 0 basic, -1 nonbasic
        f = Pred('nonbasic%d' % x.seg, P(x.idx))
        if y == 0:
            f = Not(f)
        return B(f if op == 'Eq' else Not(f))
    raise Unsupported('basis status comparison')


OPAQUE['grbexpr'] = {'binop': binop, 'compare': compare, 'famsum': famsum, 'call': expr_call}
OPAQUE['grbvar'] = {'binop': binop, 'compare': compare, 'famsum': famsum, 'call': var_call, 'getattr': var_getattr}
OPAQUE['grbvars'] = {'getitem': vars_getitem, 'aslist': vars_aslist, 'call': vars_call}
OPAQUE['grbmodel'] = {'getattr': model_getattr, 'call': model_call}
OPAQUE['grbconstr'] = {'getattr': con_getattr, 'call': con_call}
OPAQUE['cbasis'] = {'compare': basis_compare}


def install(s):
    s.c.grb_models = []
    s.c.grb_model_hook = new_model
    s.c.grb_lin_hook = new_expr
    s.c.grb_quad_hook = new_expr
