"""C13: what is passed to Gurobi and what is read back; the program front ends."""
from ._lib import *
from vc import grbmodel as gm

DROP = T(1.e-9)
BIG = Term.const(10 ** 20)


def absent_or_visible(s, a):
    """Every entry is zero or larger than the documented threshold in absolute value."""
    v_ = a.val()
    s.assume(ar.forall_over(v_.dims, lambda *l: Or(Eq(v_.at(*l), 0), Lt(DROP, v_.at(*l)), Lt(v_.at(*l), -DROP))))


def data(s, quad, eq):
    n, m = s.dim('n'), s.dim('m')
    f, A, b = s.arr('f', n), s.arr('A', m, n), s.arr('b', m)
    H = s.arr('H', n, n) if quad else None
    C = d = p = None
    if eq:
        p = s.dim('p')
        C, d = s.arr('C', p, n), s.arr('d', p)
    for a in (f, A, b, H, C, d):
        if a is not None:
            absent_or_visible(s, a)
    gm.install(s)
    return n, m, p, H, f, A, b, C, d


def visible(v_):
    return ar.forall_over(v_.dims, lambda *l: Or(Eq(v_.at(*l), 0), Lt(DROP, v_.at(*l)), Lt(v_.at(*l), -DROP)))


def generic_point(n):
    return Val([D(n)], lambda l: Term.atom('X', l[1]))


def lin_rows(A, b, n):
    X = generic_point(n)
    return lambda i: T(ar.dot(Val([A.dims[1]], lambda l: A.at(i, l)), X)) + T(b.at(i))


def kwcall(s, f, kw):
    try:
        return Out(s.it.call(f, [], kw, verify=True))
    except PyRaise as e:
        return Out(exc=e.kind)


def vars_of(s, n):
    m = gm.new_model(s.it, [], {})
    m.st['n'] = P(n)
    return Opaque('grbvars', model=m)


@scenario('C13', 'linear_expression', [GRB + ':linear_expression'])
def _(s):
    n, m = s.dim('n'), s.dim('m')
    A, b = s.arr('A', m, n), s.arr('b', m)
    gm.install(s)
    s.assume(And(visible(A.val()), visible(b.val())))
    r = s.call(s.it.get(GRB, 'linear_expression'), A, b, vars_of(s, n))
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    row = lin_rows(A.val(), b.val(), n)
    l = nm.aslist(r.value)
    s.prove('one expression per row', IEq(P(l.length()), P(m)))
    pos = P(0)
    for sg in l.segs:
        if sg[0] != 'fam':
            raise Unsupported('list of expressions')
        s.prove('row times x plus constant', Forall([(sg[2], P(sg[1]))], Eq(gm.term(sg[3]), row((0, pos + V(sg[2]))))))
        pos = pos + P(sg[1])


@scenario('C13', 'quadratic_expression', [GRB + ':quadratic_expression'])
def _(s):
    n = s.dim('n')
    H = s.arr('H', n, n)
    gm.install(s)
    s.assume(visible(H.val()))
    r = s.call(s.it.get(GRB, 'quadratic_expression'), H, vars_of(s, n))
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    X = generic_point(n)
    s.prove("x' H x", Eq(gm.term(r.value), ar.dot(X, ar.dot(H.val(), X))))


def use_expressions(s):
    """Contracts of linear_expression and quadratic_expression (proved above)."""
    def lin(it, a, k):
        if len(a) != 3 or k or not isinstance(a[2], Opaque) or a[2].kind != 'grbvars':
            raise Unsupported('arguments of linear_expression')
        A, b = val(a[0]), val(a[1])
        n = a[2].model.st['n']
        s.prove('linear_expression: coefficients zero or visible', And(visible(A), visible(b)))
        s.prove('linear_expression: sizes', And(IEq(dsize(A.dims[1]), n), IEq(dsize(A.dims[0]), dsize(b.dims[0]))))
        if len(A.dims[0]) != 1 or A.dims[0][0].r:
            raise Unsupported('blocks of rows')
        row = lin_rows(A, b, n)
        cnt = dsize(A.dims[0])
        if cnt.is_const():
            return LObj.of([gm.expr(row((0, P(i)))) for i in range(cnt.const())])
        i = fresh('l', cnt)
        return LObj([('fam', I(cnt), i, gm.expr(row((0, V(i)))))])

    def quad(it, a, k):
        if len(a) != 2 or k or not isinstance(a[1], Opaque) or a[1].kind != 'grbvars':
            raise Unsupported('arguments of quadratic_expression')
        H = val(a[0])
        n = a[1].model.st['n']
        s.prove('quadratic_expression: coefficients zero or visible', visible(H))
        s.prove('quadratic_expression: sizes', And(IEq(dsize(H.dims[1]), n), IEq(dsize(H.dims[0]), n)))
        X = generic_point(n)
        return gm.expr(ar.dot(X, ar.dot(H, X)))
    s.it.contracts[GRB + ':linear_expression'] = lin
    s.it.contracts[GRB + ':quadratic_expression'] = quad


def the_model(s):
    ms = s.c.grb_models
    if len(ms) != 1:
        raise Unsupported('%d gurobi models' % len(ms))
    return ms[0]


def bound(x, k, n):
    """Bound of variable k from a scalar or a list."""
    if x is None:
        return None
    if ip.is_num(x):
        return nm.num(x)
    l = nm.aslist(x)
    if len(l.segs) != 1 or l.segs[0][0] != 'fam':
        raise Unsupported('bounds of variables')
    return nm.num(vsubst(l.segs[0][3], {l.segs[0][2]: k}))


def posed(s, g, n, m, p, H, f, A, b, C, d, nc=None):
    """The program handed to the optimizer is min 1/2 x' H x + f' x subject to A x <= b, C x = d, x[nc:] binary.
    Returns the segments of inequality and equality constraints."""
    st = g.st
    if 'posed' not in st:
        s.fail('optimizes', 'no call of optimize')
        return None
    cons, attrs, obj, sense = st['posed']
    X = Val([D(n)], lambda l: Term.atom('X', l[1]))
    s.prove('number of variables', IEq(st['n'], n))
    k = fresh('k', P(n))
    lb, ub = bound(st['lb'], V(k), n), bound(st['ub'], V(k), n)
    s.prove('no lower bound', Implies(And(ILe(0, V(k)), ILt(V(k), n)), Le(lb, -BIG) if lb is not None else FALSE))
    s.prove('no upper bound', Implies(And(ILe(0, V(k)), ILt(V(k), n)), Le(BIG, ub) if ub is not None else TRUE))
    types(s, st, attrs, n, nc)
    s.prove('minimizes', TRUE if sense == 1 else FALSE)
    cost = ar.dot(f.val(), X)
    if H is not None:
        cost = T(cost) + T(Term.const(nm.Fraction(1, 2))) * T(ar.dot(X, ar.dot(H.val(), X)))
    if obj is None:
        s.fail('cost', 'no objective')
    else:
        s.prove('cost', Eq(obj, cost))
    where = {}
    left = {'<': (A, b, m), '=': (C, d, p) if C is not None else None}
    for q, sg in enumerate(cons):
        con, cnt = (sg[1], P(1)) if sg[0] == 'one' else (sg[3], P(sg[1]))
        t, sns = con[0], con[1]
        if sns == '>':
            t, sns = -t, '<'
        if sg[0] != 'fam' or left.get(sns) is None or sns in where:
            if sg[0] == 'fam' and s.c.int_zero(cnt) is True:
                continue
            if sg[0] == 'one':
                raise Unsupported('constraints added one by one')
            s.fail('constraints', 'constraints that were not asked for')
            continue
        M, r, cn = left[sns]
        where[sns] = (q, con[1])
        nme = 'inequalities' if sns == '<' else 'equalities'
        s.prove('number of ' + nme, IEq(cnt, cn))
        row = T(ar.dot(Val([M.val().dims[1]], lambda l: M.val().at((0, V(sg[2])), l)), X)) - r.val().at((0, V(sg[2])))
        s.prove(nme, Forall([(sg[2], cnt)], Eq(t, row)))
    for sns, x in left.items():
        if x is not None and sns not in where:
            s.prove('no constraint is missing', IEq(x[2], 0))
    return where


def types(s, st, attrs, n, nc):
    """Continuous variables before nc, binary ones from there on."""
    s.prove('tolerances of the solver are not loosened', TRUE if 'loose' not in st else FALSE)
    if nc is None:
        s.prove('all variables continuous', TRUE if st['vtype'] == 'C' and not attrs else FALSE)
        return
    if st['vtype'] != 'C':
        raise Unsupported('types of variables at creation')
    k = V(fresh('k', P(n)))
    sel = []
    for sg in attrs:
        idx, name, value = sg[1] if sg[0] == 'one' else sg[3]
        if name != 'vtype' or value != 'B':
            s.fail('types', 'attribute %s set to %s' % (name, value))
            return
        eq = IEq(P(idx), k)
        sel.append(eq if sg[0] == 'one' else Exists([(sg[2], P(sg[1]))], eq))
    inside = And(ILe(0, k), ILt(k, n))
    s.prove('trailing variables are binary', Implies(And(inside, ILe(nc, k)), Or(*sel)))
    s.prove('leading variables are continuous', Implies(And(inside, ILt(k, nc)), Not(Or(*sel))))


def entries(s, name, a, n, want):
    if not isinstance(a, Arr) or a.ndim != 1:
        s.fail(name, 'not a vector')
        return
    v_ = a.val()
    s.prove(name + ': size', IEq(dsize(v_.dims[0]), n))
    s.prove(name, ar.forall_over(v_.dims, lambda l: Eq(v_.at(l), want(ar.flat(v_.dims[0], l)))))


def readback(s, g, r, n, m, p, where, continuous=True):
    if not isinstance(r, DObj):
        s.fail('answer', 'not a dictionary')
        return
    st = g.st
    keys = ['min', 'argmin'] + (['active_set', 'multiplier_inequality', 'multiplier_equality'] if continuous else [])
    for k in keys:
        if k not in r.d:
            s.fail('answer', 'no entry ' + k)
            return
    if st['status'] != 2:
        s.prove('all None unless optimal', TRUE if all(r.d[k] is None for k in keys) else FALSE)
        return
    s.prove('minimum', Eq(nm.num(r.d['min']), Term.atom('ObjVal')) if ip.is_num(r.d['min']) else FALSE)
    entries(s, 'minimizer', r.d['argmin'], n, lambda i: Term.atom('Xopt', i))
    if not continuous:
        return
    # multipliers: f + H x + A' lambda + C' nu = 0, lambda >= 0, while Gurobi's Pi is the derivative of the optimal value
    for key, sns, cnt in (('multiplier_inequality', '<', m), ('multiplier_equality', '=', p)):
        a = r.d[key]
        if cnt is None:
            s.prove(key + ' without such constraints', TRUE if a is None else FALSE)
            continue
        if a is None:
            s.prove(key + ' missing only without such constraints', IEq(cnt, 0))
            continue
        if sns not in where:
            s.prove(key, IEq(cnt, 0))
            continue
        q, orig = where[sns]
        sign = T(1) if orig == '>' else T(-1)
        entries(s, key, a, cnt, lambda i, q=q, sign=sign: sign * Term.atom('Pi%d' % q, i))


def run(s, fn, quad, eq, nc=None, hyp=None):
    n, m, p, H, f, A, b, C, d = data(s, quad, eq)
    args = ([I(P(nc))] if nc is not None else []) + ([H] if quad else []) + [f, A, b] + ([C, d] if eq else [])
    if nc is not None:
        s.assume(And(ILe(0, nc), ILe(nc, n)))
    use_expressions(s)
    r = s.call(s.it.get(GRB, fn), *args)
    if not r.ok:
        s.fail('answers', r.exc)
        return None
    s.unchanged()
    g = the_model(s)
    if g.st.get('status', 2) != 2:
        # the model was built before the status is known: judged on the other paths
        readback(s, g, r.value, n, m, p, {}, nc is None)
        return None
    where = posed(s, g, n, m, p, H, f, A, b, C, d, nc)
    if where is None:
        return None
    readback(s, g, r.value, n, m, p, where, nc is None)
    return g, r.value, where, m


def variants(name, functions):
    def deco(fn):
        for eq in (0, 1):
            scenario('C13', name + (' with equalities' if eq else ''), functions)(lambda s, eq=eq: fn(s, eq))
        return fn
    return deco


BOTH = [GRB + ':_build_model', GRB + ':_reorganize_solution', GRB + ':linear_expression']


@variants('gurobi linear_program', [GRB + ':linear_program'] + BOTH)
def _(s, eq):
    x = run(s, 'linear_program', False, eq)
    if x is None:
        return
    g, r, where, m = x
    act = r.d['active_set']
    if not isinstance(act, LObj):
        s.fail('active set', 'not a list')
        return
    k = V(fresh('k', P(m)))
    if '<' not in where:
        return
    proves_iff(s, 'active set: nonbasic inequalities', Implies(And(ILe(0, k), ILt(k, m)), in_list(s, k, act)),
               Implies(And(ILe(0, k), ILt(k, m)), Pred('nonbasic%d' % where['<'][0], k)))
    index_list(s, 'active set', act, m)


@variants('gurobi quadratic_program', [GRB + ':quadratic_program', GRB + ':quadratic_expression'] + BOTH)
def _(s, eq):
    x = run(s, 'quadratic_program', True, eq)
    if x is None:
        return
    g, r, where, m = x
    act = r.d['active_set']
    if not isinstance(act, LObj) and not isinstance(act, Arr):
        s.fail('active set', 'not a list')
        return
    k = V(fresh('k', P(m)))
    if '<' not in where:
        return
    lam = r.d['multiplier_inequality'].val()
    inside = And(ILe(0, k), ILt(k, m))
    lk = nm.at_locs(lam, [('idx', k)])
    proves_iff(s, 'active set: inequalities with positive multiplier', Implies(inside, in_list(s, k, act)),
               Implies(inside, Lt(T(1.e-5), lk)))
    index_list(s, 'active set', act, m)


@variants('gurobi mixed_integer_quadratic_program', [GRB + ':mixed_integer_quadratic_program', GRB + ':quadratic_expression'] + BOTH)
def _(s, eq):
    nc = s.dim('nc')
    run(s, 'mixed_integer_quadratic_program', True, eq, nc)


# ------------------------------------------------------------------ front ends
KNOWN = {'linear_program': {'pnnls': NNL + ':linear_program', 'gurobi': GRB + ':linear_program'},
         'quadratic_program': {'pnnls': NNL + ':quadratic_program', 'gurobi': GRB + ':quadratic_program'},
         'mixed_integer_quadratic_program': {'gurobi': GRB + ':mixed_integer_quadratic_program'}}
DEFAULT = {'linear_program': 'pnnls', 'quadratic_program': 'pnnls', 'mixed_integer_quadratic_program': 'gurobi'}


def front_end(fn):
    @scenario('C13', 'front end ' + fn, [PRG + ':' + fn])
    def _(s):
        names = sorted(KNOWN[fn]) + [None, 'no such solver', 'Gurobi', 'pnnls ', '']
        name = names[s.c.choose(len(names), 'solver')]
        eq = s.c.choose(2, 'equalities')
        how = s.c.choose(2, 'keywords')
        n, m, p = s.dim('n'), s.dim('m'), s.dim('p')
        args = {}
        if fn.startswith('mixed'):
            args['nc'] = V('nc')
            s.dim('nc')
        if fn != 'linear_program':
            args['H'] = s.arr('H', n, n)
        args.update(f=s.arr('f', n), A=s.arr('A', m, n), b=s.arr('b', m))
        if eq:
            args.update(C=s.arr('C', p, n), d=s.arr('d', p))
        order = [k for k in ('nc', 'H', 'f', 'A', 'b', 'C', 'd') if k in args]
        seen = []

        def contract(q):
            def h(it, a, k):
                mod, nme = q.split(':')
                bound_ = dict(zip(['nc'] if nme.startswith('mixed') else [], a))
                names_ = (['nc'] if nme.startswith('mixed') else []) + ([] if nme == 'linear_program' else ['H']) + ['f', 'A', 'b', 'C', 'd']
                bound_ = dict(zip(names_, a))
                bound_.update(k)
                seen.append((q, bound_))
                return Opaque('answer', q=q)
            return h
        for q in set(x for t_ in KNOWN.values() for x in t_.values()):
            s.it.contracts[q] = contract(q)
        kw = {} if name is None else {'solver': name}
        if how:
            r = kwcall(s, s.it.get(PRG, fn), dict(args, **kw))
        else:
            r = s.call(s.it.get(PRG, fn), *[args[k] for k in order], **kw)
        s.unchanged()
        want = KNOWN[fn].get(DEFAULT[fn] if name is None else name)
        s.expect_raise(r, 'ValueError', TRUE if want is None else FALSE, 'unknown solver %r' % name)
        if not r.ok or want is None:
            return
        s.prove('calls the solver that was named, once', TRUE if [q for q, _ in seen] == [want] else FALSE)
        s.prove('returns its answer', TRUE if isinstance(r.value, Opaque) and getattr(r.value, 'q', None) == want else FALSE)
        if len(seen) == 1:
            got = seen[0][1]
            for k in ('nc', 'H', 'f', 'A', 'b', 'C', 'd'):
                x, y = args.get(k), got.get(k)
                if x is None or y is None:
                    s.prove('passes ' + k, TRUE if x is None and y is None else FALSE)
                else:
                    s.prove('passes ' + k, veq(x, y))
    return _


for _fn in KNOWN:
    front_end(_fn)
