"""C22: the mixed-integer program of the hybrid controller."""
from ._lib import *
from .dynamics import pwa, addv, item, sc
from .control import blocks, batom, blk, quad, dget

RECURSIVE |= {'_get_bigM_domains', '_get_bigM_dynamics'}

HYB = CTL + ':HybridModelPredictiveController'


def hybrid_system(s):
    """Bounded domains have at least one row."""
    r = pwa(s)
    lg.APP_RANGE['mD'] = lambda z, app, y: [y >= 1]
    return r


def bounding_lp(s, y):
    """linear_program over a nonempty bounded set: the minimum is a lower bound of the cost at every feasible point y (C11)."""
    def h(it, args, kw):
        nm.trust('C11: linear programs over nonempty bounded sets are solved exactly')
        f, A, b = [val(a) for a in args[:3]]
        C, d = (list(args[3:5]) + [None, None])[:2]
        C, d = kw.get('C', C), kw.get('d', d)
        name, ix = it.fresh_name('lpmin')
        mn = Term.atom(name, *ix)
        feas = rows_le(A, y, b)
        if C is not None:
            feas = And(feas, rows_eq(val(C), y, val(d)))
        s.assume(Implies(feas, Le(mn, ar.dot(f, y))))
        return DObj({'min': mn, 'argmin': Opaque('point'), 'active_set': Opaque('active'), 'multiplier_inequality': Opaque('mult'),
                     'multiplier_equality': Opaque('mult')})
    s.it.contracts[PRG + ':linear_program'] = h
    s.it.contracts[NNL + ':linear_program'] = h


def scalar_at(x, k):
    """Entry k of a vector or of a column."""
    v_ = val(x)
    if v_.ndim == 1:
        return nm.at_locs(v_, [('idx', P(k))])
    return nm.at_locs(v_, [('idx', P(k)), ar.first_loc(v_.dims[1])])


@scenario('C22', '_get_bigM_dynamics', [HYB + '._get_bigM_dynamics'])
def _(s):
    S, sysm, dom, nx, nu, M = hybrid_system(s)
    y = s.arr('y', nx + nu).val()
    bounding_lp(s, y)
    o = s.obj(CTL, 'HybridModelPredictiveController', S=S)
    r = s.method(o, '_get_bigM_dynamics')
    if not r.ok:
        s.fail('bounds are computed', r.exc)
        return
    s.unchanged()
    al, be = r.value
    i, j, k = [V(fresh(c, n)) for c, n in (('i', M), ('j', M), ('k', nx))]
    for l, nme in ((al, 'lower'), (be, 'upper')):
        s.prove('%s bounds: one per pair of modes' % nme, And(IEq(P(l.length()), M), IEq(P(item(l, i).length()), M)))
    a, b = item(item(al, i), j), item(item(be, i), j)
    s.prove('one bound per state', And(IEq(dsize(val(a).dims[0]), nx), IEq(dsize(val(b).dims[0]), nx)))
    Si, Dj = sysm(i), dom(j)
    nxt = addv(ar.dot(ar.concat([v(Si, 'A'), v(Si, 'B')], 1), y), v(Si, 'c')).at((0, k))
    inD = And(rows_le(v(Dj, 'A'), y, v(Dj, 'b')), rows_eq(v(Dj, 'C'), y, v(Dj, 'd')))
    s.prove('below the next state of mode i over domain j', Implies(inD, Le(scalar_at(a, k), nxt)))
    s.prove('above the next state of mode i over domain j', Implies(inD, Le(nxt, scalar_at(b, k))))


@scenario('C22', '_get_bigM_domains', [HYB + '._get_bigM_domains'])
def _(s):
    S, sysm, dom, nx, nu, M = hybrid_system(s)
    y = s.arr('y', nx + nu).val()
    bounding_lp(s, y)
    o = s.obj(CTL, 'HybridModelPredictiveController', S=S)
    r = s.method(o, '_get_bigM_domains')
    if not r.ok:
        s.fail('bounds are computed', r.exc)
        return
    s.unchanged()
    i, j = V(fresh('i', M)), V(fresh('j', M))
    k = V(fresh('k', PA('mD', i)))
    ga = r.value
    s.prove('one bound per pair of modes', And(IEq(P(ga.length()), M), IEq(P(item(ga, i).length()), M)))
    g = item(item(ga, i), j)
    Di, Dj = dom(i), dom(j)
    s.prove('one bound per row', IEq(dsize(val(g).dims[0]), PA('mD', i)))
    viol = T(ar.dot(v(Di, 'A'), y).at((0, k))) - v(Di, 'b').at((0, k))
    inD = And(rows_le(v(Dj, 'A'), y, v(Dj, 'b')), rows_eq(v(Dj, 'C'), y, v(Dj, 'd')))
    s.prove('above the violation of domain i over domain j', Implies(inD, Le(viol, scalar_at(g, k))))


# ------------------------------------------------------------------ condensed program
def stage_rows(s, nE, nx, nu, nz, nd):
    return {'x': s.arr('Ex', nE, nx), 'u': s.arr('Eu', nE, nu), 'z': s.arr('Ez', nE, nz), 'd': s.arr('Ed', nE, nd), '0': s.arr('E0', nE)}


def states(x, z, N, nx, M):
    """X(0) = x, X(t + 1) = sum over the modes of the blocks of z(t)."""
    def X(t):
        if t is None:
            return x
        m = fresh('m', M)
        return Val([D(nx)], lambda l: T(z.at((0, P(t), (0, V(m), (0, l[1]))))).sum(m, M))
    return X


def mpmiqp_rows(o, x, u, z, d):
    A, b = o.attrs['A'], val(o.attrs['b'])
    lhs = addv(*[ar.dot(val(dget(A, k)), w) for k, w in (('u', u), ('z', z), ('d', d), ('x', x))])
    r = ar.elementwise(lambda p, q: Le(p, q), lhs, b, boolean=True)
    return ar.forall_over(r.dims, r.at)


def mpmiqp_value(o, x, u, z):
    H = o.attrs['H']
    Huu, Hzz, Hzx, Hxx = [val(dget(H, k)) for k in ('uu', 'zz', 'zx', 'xx')]
    half = T(0.5)
    return half * quad(u, Huu, u) + half * quad(z, Hzz, z) + ar.dot(z, ar.dot(Hzx, x)) + half * quad(x, Hxx, x)


@scenario('C22', '_condense_program', [HYB + '._condense_program', HYB + '._condense_inequalities', HYB + '._condense_equalities',
                                       PAR + ':MultiParametricMixedIntegerQuadraticProgram.__init__'], timeout=20000)
def _(s):
    nx, nu, M, N = s.dim('nx', 1), s.dim('nu', 1), s.dim('M', 1), s.dim('N', 1)
    S = s.obj(DTS, 'PieceWiseAffineSystem', nx=nx, nu=nu, nm=M)
    Q, Rm, Pm = s.arr('Q', nx, nx, sym=True), s.arr('R', nu, nu, sym=True), s.arr('P', nx, nx, sym=True)
    XN = polyhedron(s, 'N', nx, p=0)
    nE = s.dim('nE')
    zb = blocks(M, nx)
    E = {'x': s.arr('Ex', nE, nx), 'u': s.arr('Eu', nE, nu), 'z': batom('Ez', D(nE), zb), 'd': s.arr('Ed', nE, M), '0': s.arr('E0', nE)}
    seen = []

    def h(it, args, kw):
        seen.append(list(args))
        return DObj(dict(E))
    s.it.contracts[HYB + '._build_inequalities'] = h
    o = s.obj(CTL, 'HybridModelPredictiveController', S=S, N=N, Q=Q, R=Rm, P=Pm, X_N=XN)
    r = s.method(o, '_condense_program')
    if not r.ok:
        s.fail('the program is built', r.exc)
        return
    s.unchanged()
    if not seen:
        raise Unsupported('_build_inequalities not used')
    p = r.value
    x = s.arr('x', nx).val()
    u = batom('u', blocks(N, nu)).val()
    z = batom('z', (R(N, fresh('r'), zb),)).val()
    d = batom('d', blocks(N, M)).val()
    X = states(x, z, N, nx, M)
    half = T(0.5)
    t = fresh('t', N)
    ut, zt, dt = blk(u, V(t), nu), Val([zb], lambda l: z.at((0, V(t), l))), blk(d, V(t), M)
    # cost: the stage costs of x and of the states after every step, the last one weighted by P
    t3 = fresh('t', N - 1)
    last = X(N - 1)
    run_ = lambda xt_: half * quad(xt_, Q.val(), xt_)
    cost = run_(x) + (half * quad(ut, Rm.val(), ut)).sum(t, N) + run_(X(V(t3))).sum(t3, N - 1) + half * quad(last, Pm.val(), last)
    s.prove('cost of the program is the cost of the trajectory', Eq(mpmiqp_value(p, x, u, z), cost))
    got = mpmiqp_rows(p, x, u, z, d)

    def stage(xt_, tt):
        lhs = addv(ar.dot(E['x'].val(), xt_), ar.dot(E['u'].val(), blk(u, tt, nu)), ar.dot(E['z'].val(), Val([zb], lambda l: z.at((0, P(tt), l)))),
                   ar.dot(E['d'].val(), blk(d, tt, M)))
        q = ar.elementwise(lambda a, b: Le(a, b), lhs, E['0'].val(), boolean=True)
        return ar.forall_over(q.dims, q.at)
    t2 = fresh('t', N - 1)
    want = And(stage(x, P(0)), Forall([(t2, N - 1)], stage(X(V(t2)), V(t2) + 1)), rows_le(v(XN, 'A'), last, v(XN, 'b')))
    s.prove('feasible points satisfy the rows of every step and end in the terminal set', Implies(got, want))
    # every row of the program is a row of the first step, of a later step or of the terminal set
    A, b = p.attrs['A'], val(p.attrs['b'])
    lhs = addv(*[ar.dot(val(dget(A, k)), w) for k, w in (('u', u), ('z', z), ('d', d), ('x', x))])
    rows = ar.elementwise(lambda a_, b_: Le(a_, b_), lhs, b, boolean=True)
    mN = V('mN')
    s.prove('number of rows', IEq(dsize(rows.dims[0]), nE * N + mN))
    nme = 'the rows of every step and the terminal set give feasible points'
    q = fresh('q', nE)
    row = lambda i: nm.at_locs(rows, [('idx', P(i))])
    s.prove(nme + ' (first step)', Implies(want, Forall([(q, nE)], row(V(q)))))
    q2 = fresh('q', mN)
    s.prove(nme + ' (terminal set)', Implies(want, Forall([(q2, mN)], row(nE * N + V(q2)))))
    if s.branch(ILt(1, N)):
        t4 = V(fresh('t', N - 1))
        s.prove(nme + ' (later steps)', Implies(want, Forall([(q, nE)], row(nE * (t4 + 1) + V(q)))))


@scenario('C22', 'MultiParametricMixedIntegerQuadraticProgram.solve', [PAR + ':MultiParametricMixedIntegerQuadraticProgram.solve'])
def _(s):
    nu, nz, nd, nx, m = s.dim('nu'), s.dim('nz'), s.dim('nd', 1), s.dim('nx'), s.dim('m')
    H = {'uu': s.arr('Huu', nu, nu), 'zz': s.arr('Hzz', nz, nz), 'zx': s.arr('Hzx', nz, nx), 'xx': s.arr('Hxx', nx, nx)}
    A = {k: s.arr('A' + k, m, n) for k, n in (('u', nu), ('z', nz), ('d', nd), ('x', nx))}
    b = s.arr('b', m)
    o = s.obj(PAR, 'MultiParametricMixedIntegerQuadraticProgram', H=DObj(H), A=DObj(A), b=b)
    x = s.arr('x', nx)
    calls = []
    dims = (S(nu), S(nz), S(nd))

    def h(it, args, kw):
        nc, H_, f_, A_, b_ = args[:5]
        ok = s.c.choose(2, 'solved')
        calls.append((nc, val(H_), val(f_), val(A_), val(b_), args[5:], kw, ok))
        if not ok:
            return DObj({'min': None, 'argmin': None})
        return DObj({'min': Term.atom('miqpmin'), 'argmin': s.it.ext.call(s.it, ip.Ext('numpy.concatenate'), [(batom('yu', D(nu)), batom('yz', D(nz)), batom('yd', D(nd)))], {})})
    s.it.contracts[PRG + ':mixed_integer_quadratic_program'] = h
    s.it.contracts[GRB + ':mixed_integer_quadratic_program'] = h
    r = s.method(o, 'solve', x)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    if len(calls) != 1:
        raise Unsupported('solver called %d times' % len(calls))
    nc, H_, f_, A_, b_, rest, kw, ok = calls[0]
    s.prove('continuous variables', IEq(P(nc), nu + nz))
    s.prove('no equalities', TRUE if all(a is None for a in rest) and not [k for k in kw if k != 'solver' and kw[k] is not None] else FALSE)
    u, z, d = [batom(k, D(n)).val() for k, n in (('u', nu), ('z', nz), ('d', nd))]
    w = ar.concat([u, z, d], 0)
    half = T(0.5)
    xv = x.val()
    want = half * quad(u, H['uu'].val(), u) + half * quad(z, H['zz'].val(), z) + ar.dot(z, ar.dot(H['zx'].val(), xv))
    s.prove('cost for this parameter up to its constant term', Eq(half * quad(w, H_, w) + ar.dot(f_, w), want))
    got = ar.elementwise(lambda p, q: T(p) - T(q), ar.dot(A_, w), b_)
    lhs = addv(*[ar.dot(A[k].val(), q) for k, q in (('u', u), ('z', z), ('d', d), ('x', xv))])
    exp = ar.elementwise(lambda p, q: T(p) - T(q), lhs, b.val())
    s.prove('constraints for this parameter', val_eq(got, exp))
    sol = r.value
    if not isinstance(sol, DObj):
        s.fail('answer', 'not a dictionary')
        return
    if not ok:
        s.prove('None when infeasible', TRUE if all(sol.d.get(k, 0) is None for k in ('min', 'u', 'z', 'd')) else FALSE)
        return
    s.prove('minimum of the parametric program', Eq(nm.num(sol.d['min']), Term.atom('miqpmin') + half * quad(xv, H['xx'].val(), xv)))
    for k, n in (('u', nu), ('z', nz), ('d', nd)):
        s.prove('minimizer: ' + k, val_eq(val(sol.d[k]), batom('y' + k, D(n)).val()))


@scenario('C22', 'constructor', [HYB + '.__init__'])
def _(s):
    S, sysm, dom, nx, nu, M = hybrid_system(s)
    N = s.dim('N', 1)
    Q, Rm, Pm = s.arr('Q', nx, nx, sym=True), s.arr('R', nu, nu, sym=True), s.arr('P', nx, nx, sym=True)
    XN = polyhedron(s, 'N', nx, p=0)
    al, be, ga, mp = [Opaque(k) for k in ('alpha', 'beta', 'gamma', 'mpmiqp')]
    log = []
    given = {'S': S, 'N': N, 'Q': Q, 'R': Rm, 'P': Pm, 'X_N': XN}

    def has(o, keys, what):
        for k, x in keys.items():
            if o.attrs.get(k) is not x and not (ip.is_int(x) and k in o.attrs and P(o.attrs[k]) == P(x)):
                s.fail(what, 'attribute %s not set before' % k)
                return
        s.prove(what, TRUE)

    def h(name, keys, ret):
        def f(it, args, kw):
            has(args[0], keys, name + ': data available')
            return ret
        s.it.contracts[HYB + '.' + name] = f
    h('_get_bigM_dynamics', {'S': S}, (al, be))
    h('_get_bigM_domains', {'S': S}, ga)
    h('_condense_program', dict(given, _alpha=al, _beta=be, _gamma=ga), mp)
    r = s.new(s.cls(CTL, 'HybridModelPredictiveController'), S, N, Q, Rm, Pm, XN)
    if not r.ok:
        s.fail('the controller is built', r.exc)
        return
    s.unchanged()
    has(r.value, dict(given, mpmiqp=mp), 'the controller keeps its data and its program')


@scenario('C22', 'feedforward and feedback', [HYB + '.feedforward', HYB + '.feedback'])
def _(s):
    nx, nu, M, N = s.dim('nx', 1), s.dim('nu', 1), s.dim('M', 1), s.dim('N', 1)
    S = s.obj(DTS, 'PieceWiseAffineSystem', nx=nx, nu=nu, nm=M)
    mp = s.obj(PAR, 'MultiParametricMixedIntegerQuadraticProgram')
    o = s.obj(CTL, 'HybridModelPredictiveController', S=S, N=N, mpmiqp=mp)
    x = s.arr('x', nx)
    calls = []
    # the mode of every step: exactly one binary variable is one
    nm.reg_range('Mode', lambda a: M)

    def h(it, args, kw):
        ok = s.c.choose(2, 'solved')
        calls.append((list(args), ok))
        if not ok:
            return DObj({k: None for k in ('min', 'u', 'z', 'd')})
        du = Arr(Val([blocks(N, M)], lambda l: Term.delta(l[2][1] - PA('Mode', l[1]))))
        return DObj({'min': Term.atom('Vmin'), 'u': batom('su', blocks(N, nu)), 'z': batom('sz', (R(N, fresh('r'), blocks(M, nx)),)), 'd': du})
    s.it.contracts[PAR + ':MultiParametricMixedIntegerQuadraticProgram.solve'] = h
    fb = s.c.choose(2, 'feedback')
    r = s.method(o, 'feedback' if fb else 'feedforward', x)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    if len(calls) != 1:
        raise Unsupported('solve called %d times' % len(calls))
    a, ok = calls[0]
    s.prove('solves its program at the state', veq(a[1], x) if a[0] is mp else FALSE)
    piece = lambda t: Arr(Val([D(nu)], lambda l: Term.atom('su', P(t), l[1])))
    if fb:
        if not ok:
            s.prove('None when infeasible', TRUE if r.value is None else FALSE)
        else:
            s.prove('first input of the minimizer', veq(r.value, piece(0)) if r.value is not None else FALSE)
        return
    if not isinstance(r.value, tuple) or len(r.value) != 4:
        raise Unsupported('shape of the answer')
    us, xs, ms, V_ = r.value
    if not ok:
        s.prove('None when infeasible', TRUE if all(w is None for w in r.value) else FALSE)
        return
    s.prove('optimal cost', Eq(nm.num(V_), Term.atom('Vmin')))
    s.prove('one input and one mode per step, one state more', And(IEq(P(us.length()), N), IEq(P(ms.length()), N), IEq(P(xs.length()), N + 1)))
    t = V(fresh('t', N))
    s.prove('inputs are the pieces of the minimizer', veq(item(us, t), piece(t)))
    s.prove('starts at the given state', veq(item(xs, 0), x))
    q = fresh('m', M)
    s.prove('states are the sums of the blocks', veq(item(xs, t + 1), Arr(Val([D(nx)], lambda l: Term.atom('sz', t, V(q), l[1]).sum(q, M)))))
    s.prove('modes are those selected', IEq(P(item(ms, t)), PA('Mode', t)))


# ------------------------------------------------------------------ rows of one step
def bound_lists(s, name, M, rows):
    """bigM[i][j]: column with rows(i) entries."""
    def cell(i, j):
        return Arr(Val([D(rows(i)), D(1)], lambda a, b: Term.atom(name, i, j, a[1])))
    return s.fam(M, lambda i: s.fam(M, lambda j: cell(i, j)))


def off_diagonal(s):
    """Contract of _bigM_matrices: block row i has bigM[i][j] in column j != i and zero in column i."""
    def h(it, args, kw):
        l = args[-1]
        n = P(l.length())
        i, j = fresh('r', n), fresh('j', n)
        row = nm.list_getitem(l, I(V(i)))
        d = val(nm.list_getitem(row, I(P(0)))).dims[0]
        sized = lambda k: dsize(d).subst({i: k})

        def at(a, b):
            bi, bj = a[1], ar.flat(D(n), b)
            e = val(nm.list_getitem(nm.list_getitem(l, I(bi)), I(bj)))
            return (T(1) - Term.delta(bi - bj)) * T(nm.at_locs(e, [('idx', ar.flat(a_dims(bi), a[2])), ar.first_loc(e.dims[1])]))

        def a_dims(k):
            return D(sized(k))
        return Arr(Val([(R(n, i, D(dsize(d))),), D(n)], at))
    s.it.contracts[HYB + '._bigM_matrices'] = h


@scenario('C22', '_build_inequalities', [HYB + '._build_inequalities'], timeout=20000)
def _(s):
    S, sysm, dom, nx, nu, M = hybrid_system(s)
    al = bound_lists(s, 'alpha', M, lambda i: nx)
    be = bound_lists(s, 'beta', M, lambda i: nx)
    ga = bound_lists(s, 'gamma', M, lambda i: PA('mD', i))
    off_diagonal(s)
    o = s.obj(CTL, 'HybridModelPredictiveController', S=S, _alpha=al, _beta=be, _gamma=ga)
    r = s.method(o, '_build_inequalities')
    if not r.ok:
        s.fail('the rows are built', r.exc)
        return
    s.unchanged()
    E = {k: val(dget(r.value, k)) for k in ('x', 'u', 'z', 'd', '0')}
    x, u = s.arr('x', nx).val(), s.arr('u', nu).val()
    y = ar.concat([x, u], 0)
    zb = blocks(M, nx)

    def rows(z, d):
        lhs = addv(*[ar.dot(E[k], w) for k, w in (('x', x), ('u', u), ('z', z), ('d', d))])
        q = ar.elementwise(lambda a, b: Le(a, b), lhs, E['0'], boolean=True)
        return ar.forall_over(q.dims, q.at)
    # the binaries of one step add up to one
    dg = batom('d', D(M)).val()
    z = batom('z', zb).val()
    tot = fresh('j', M)
    s.prove('exactly one mode is selected', Implies(rows(z, dg), Eq(Term.atom('d', V(tot)).sum(tot, M), 1)))
    # selection of mode J; binary vectors adding up to one are of this form
    J = V(fresh('J', M))
    one = Val([D(M)], lambda l: Term.delta(l[1] - J))
    nxt = lambda i: addv(ar.dot(ar.concat([v(sysm(i), 'A'), v(sysm(i), 'B')], 1), y), v(sysm(i), 'c'))
    inJ = rows_le(v(dom(J), 'A'), y, v(dom(J), 'b'))
    got = rows(z, one)
    k = fresh('k', nx)
    s.prove('the pair lies in the domain of the selected mode', Implies(got, inJ))
    zi = lambda i, q: z.at((0, P(i), (0, q)))
    s.prove('the selected block is the next state', Implies(got, Forall([(k, nx)], Eq(zi(J, V(k)), nxt(J).at((0, V(k)))))))
    i = fresh('i', M)
    s.prove('the other blocks are zero', Implies(got, Forall([(i, M), (k, nx)], Or(IEq(V(i), J), Eq(zi(V(i), V(k)), 0)))))
    # conversely (the bounds hold in the domain of the selected mode: scenarios of _get_bigM_*)
    at = lambda n, i_, j_, k_: Term.atom(n, i_, j_, k_)
    s.assume(Forall([(i, M), (k, nx)], And(Le(at('alpha', V(i), J, V(k)), nxt(V(i)).at((0, V(k)))), Le(nxt(V(i)).at((0, V(k))), at('beta', V(i), J, V(k))))))
    h = fresh('h', PA('mD', V(i)))
    s.assume(Forall([(i, M), (h, PA('mD', V(i)))], Le(T(ar.dot(v(dom(V(i)), 'A'), y).at((0, V(h)))) - v(dom(V(i)), 'b').at((0, V(h))), at('gamma', V(i), J, V(h)))))
    zs = Val([zb], lambda l: Term.delta(l[1] - J) * T(nxt(J).at((0, l[2][1]))))
    s.prove('every pair of the domain of the selected mode with its next state satisfies the rows', Implies(inJ, rows(zs, one)))


def big_matrix(kind):
    @scenario('C22', '_bigM_matrices (%s)' % kind, [HYB + '._bigM_matrices'], timeout=20000)
    def _(s):
        S, sysm, dom, nx, nu, M = hybrid_system(s)
        rows = (lambda i: nx) if kind == 'equal sizes' else (lambda i: PA('mD', i))
        l = bound_lists(s, 'bigM', M, rows)
        r = s.call(s.it.get(CTL, 'HybridModelPredictiveController').lookup('_bigM_matrices'), l)
        if not r.ok:
            s.fail('the matrix is built', r.exc)
            return
        v_ = r.value.val()
        i, j = fresh('r', M), fresh('j', M)
        want = Val([(R(M, i, D(rows(V(i)))),), D(M)], lambda a, b: (T(1) - Term.delta(a[1] - b[1])) * Term.atom('bigM', a[1], b[1], a[2][1]))
        s.prove('bounds of other modes outside of the diagonal, zero on it', val_eq(v_, want))
    return _


for _k in ('equal sizes', 'different sizes'):
    big_matrix(_k)
