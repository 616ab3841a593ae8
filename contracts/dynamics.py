"""C14, C16 (and the symbolic constructors of C01): systems."""
from ._lib import *
from vc import symmodel as sy

RECURSIVE |= {'LinearSystem.simulate', 'AffineSystem.simulate', 'LinearSystem.simulate_closed_loop', 'PieceWiseAffineSystem.simulate', 'productory'}


def dotv(a, b):
    return ar.dot(a, b)


def eq_vals(a, b):
    return val_eq(a, b)


def addv(*xs):
    r = xs[0]
    for y in xs[1:]:
        r = ar.elementwise(lambda p, q: p + q, r, y)
    return r


def item(l, t):
    """Element t of a list (after the call)."""
    return nm.list_getitem(l, I(P(t)))


def linsys(s, t='', affine=True):
    nx, nu = s.dim('nx', 1), s.dim('nu', 1)
    A, B = s.arr('A' + t, nx, nx), s.arr('B' + t, nx, nu)
    at = {'A': A, 'B': B, 'nx': nx, 'nu': nu}
    if affine:
        at['c'] = s.arr('c' + t, nx)
        return s.obj(DTS, 'AffineSystem', **at)
    at['_controllable'] = None
    return s.obj(DTS, 'LinearSystem', **at)


def _trajectory(s, r, x0, N, step):
    if not r.ok:
        s.fail('simulation succeeds', 'raises %s' % r.exc)
        return
    x = r.value
    if not isinstance(x, LObj):
        raise Unsupported('trajectory is not a list')
    s.prove('one state more than inputs', IEq(P(x.length()), N + 1))
    s.prove('starts at the given state', veq(item(x, 0), x0))
    t = fresh('t', N)
    if s.branch(ILt(0, N)):
        a, b = item(x, V(t)), item(x, V(t) + 1)
        s.prove('follows the dynamics at every step', veq(b, Arr(step(a.val(), V(t)))))
    s.unchanged()


@scenario('C14', 'LinearSystem.simulate', [DTS + ':LinearSystem.simulate'])
def _(s):
    S = linsys(s, affine=False)
    N = s.dim('N')
    u = s.arr('u', N, S.attrs['nu'])
    x0 = s.arr('x0', S.attrs['nx'])
    ul = s.fam(N, lambda t: Arr(Val([D(S.attrs['nu'])], lambda l: u.val().at((0, t), l))))
    r = s.method(S, 'simulate', x0, ul)
    _trajectory(s, r, x0, N, lambda x, t: addv(dotv(v(S, 'A'), x), dotv(v(S, 'B'), Val([D(S.attrs['nu'])], lambda l: u.val().at((0, t), l)))))


@scenario('C14', 'AffineSystem.simulate', [DTS + ':AffineSystem.simulate'])
def _(s):
    S = linsys(s)
    N = s.dim('N')
    u = s.arr('u', N, S.attrs['nu'])
    x0 = s.arr('x0', S.attrs['nx'])
    ul = s.fam(N, lambda t: Arr(Val([D(S.attrs['nu'])], lambda l: u.val().at((0, t), l))))
    r = s.method(S, 'simulate', x0, ul)
    _trajectory(s, r, x0, N, lambda x, t: addv(dotv(v(S, 'A'), x), dotv(v(S, 'B'), Val([D(S.attrs['nu'])], lambda l: u.val().at((0, t), l))),
                                               v(S, 'c')))


@scenario('C14', 'LinearSystem.simulate_closed_loop', [DTS + ':LinearSystem.simulate_closed_loop'])
def _(s):
    S = linsys(s, affine=False)
    N = s.dim('N')
    x0 = s.arr('x0', S.attrs['nx'])
    K = s.arr('K', S.attrs['nu'], S.attrs['nx'])
    r = s.method(S, 'simulate_closed_loop', x0, N, K)
    _trajectory(s, r, x0, N, lambda x, t: addv(dotv(v(S, 'A'), x), dotv(v(S, 'B'), dotv(K.val(), x))))


# ------------------------------------------------------------------ piecewise-affine systems
def pwa(s, nm_=None, boxed=False):
    """Symbolic piecewise-affine system with a symbolic number of modes and rows per domain."""
    nx, nu = s.dim('nx', 1), s.dim('nu', 1)
    M = s.dim('M', 1) if nm_ is None else P(nm_)
    cls_s, cls_d = s.cls(DTS, 'AffineSystem'), s.cls(GEO, 'Polyhedron')
    for f in ('mD', 'pD'):
        lg.APP_RANGE[f] = lambda z, app, y: [y >= 0]

    def sysm(k):
        k = P(k)
        return Obj(cls_s, {'A': Arr(Val([D(nx), D(nx)], lambda a, b: Term.atom('SA', k, a[1], b[1]))),
                           'B': Arr(Val([D(nx), D(nu)], lambda a, b: Term.atom('SB', k, a[1], b[1]))),
                           'c': Arr(Val([D(nx)], lambda a: Term.atom('Sc', k, a[1]))), 'nx': nx, 'nu': nu})

    def dom(k):
        k = P(k)
        m, p = PA('mD', k), PA('pD', k)
        at = {'A': Arr(Val([D(m), D(nx + nu)], lambda a, b: Term.atom('DA', k, a[1], ar.flat(D(nx + nu), b)))),
              'b': Arr(Val([D(m)], lambda a: Term.atom('Db', k, a[1]))),
              'C': Arr(Val([D(p), D(nx + nu)], lambda a, b: Term.atom('DC', k, a[1], ar.flat(D(nx + nu), b)))),
              'd': Arr(Val([D(p)], lambda a: Term.atom('Dd', k, a[1])))}
        for c in CACHES:
            at[c] = None
        return Obj(cls_d, at)
    S = s.obj(DTS, 'PieceWiseAffineSystem', affine_systems=s.fam(M, sysm), domains=s.fam(M, dom), nx=nx, nu=nu, nm=M)
    return S, sysm, dom, nx, nu, M


def in_domain(D_, x, u, tol):
    """Formula: the pair satisfies the domain within the tolerance."""
    xu = ar.concat([x, u], 0)
    A, b, C, d = v(D_, 'A'), v(D_, 'b'), v(D_, 'C'), v(D_, 'd')
    r = ar.dot(C, xu)
    neg = ar.forall_over(d.dims, lambda l: Le(d.at(l) - r.at(l), tol))
    return And(rows_le(A, xu, b, tol), rows_le(C, xu, d, tol), neg)


TOL = T(1.e-7)


@scenario('C14', 'get_mode', [DTS + ':PieceWiseAffineSystem.get_mode', GEO + ':Polyhedron.contains'])
def _(s):
    S, sysm, dom, nx, nu, M = pwa(s)
    x, u = s.arr('x', nx), s.arr('u', nu)
    r = s.method(S, 'get_mode', x, u)
    if not r.ok:
        s.fail('mode lookup answers', 'raises %s' % r.exc)
        return
    k = fresh('k', M)
    if r.value is None:
        s.prove('None only outside of every domain', Not(in_domain(dom(V(k)), x.val(), u.val(), TOL)))
    else:
        q = P(r.value)
        s.prove('mode in range', And(ILe(0, q), ILt(q, M)))
        s.prove('the domain of the mode contains the pair', in_domain(dom(q), x.val(), u.val(), TOL))
        k = fresh('k', q)
        s.prove('no lower-numbered domain contains the pair', Forall([(k, q)], Not(in_domain(dom(V(k)), x.val(), u.val(), TOL))))
    s.unchanged()


@scenario('C14', 'PieceWiseAffineSystem.simulate', [DTS + ':PieceWiseAffineSystem.simulate'])
def _(s):
    S, sysm, dom, nx, nu, M = pwa(s)
    N = s.dim('N')
    u = s.arr('u', N, nu)
    x0 = s.arr('x0', nx)
    U = lambda t: Val([D(nu)], lambda l: u.val().at((0, P(t)), l))
    ul = s.fam(N, lambda t: Arr(U(t)))
    lowest_mode_contract(s)
    r = s.method(S, 'simulate', x0, ul)
    low = lambda q, x, uu: And(ILe(0, q), ILt(q, M), Pred_low(s, S, q, x, uu))
    s.unchanged()
    if not r.ok:
        if r.exc != 'ValueError':
            s.fail('steps outside all domains raise ValueError', 'raises %s' % r.exc)
        else:
            # reached only when the mode lookup answered None at some step
            ok = any(c[0] == 'mode' and c[1] is None for c in s.c.calls)
            s.prove('raises only outside of every domain', TRUE if ok else FALSE)
        return
    x, modes = r.value
    s.prove('one state more than inputs', IEq(P(x.length()), N + 1))
    s.prove('one mode per input', IEq(P(modes.length()), N))
    s.prove('starts at the given state', veq(item(x, 0), x0))
    if s.branch(ILt(0, N)):
        t = V(fresh('t', N))
        a, b, q = item(x, t), item(x, t + 1), P(item(modes, t))
        s.prove('mode in range', And(ILe(0, q), ILt(q, M)))
        s.prove('the domain of the reported mode contains the pair', in_domain(dom(q), a.val(), U(t), TOL))
        k = fresh('k', q)
        s.prove('lowest-numbered', Forall([(k, q)], Not(in_domain(dom(V(k)), a.val(), U(t), TOL))))
        Sq = sysm(q)
        s.prove('follows the dynamics of the mode', veq(b, Arr(addv(dotv(v(Sq, 'A'), a.val()), dotv(v(Sq, 'B'), U(t)), v(Sq, 'c')))))


def Pred_low(s, S, q, x, u):
    return TRUE


def lowest_mode_contract(s):
    """Contract of get_mode (its own obligations: scenario get_mode)."""
    def h(it, args, kw):
        S, x, u = args
        M = P(S.attrs['nm'])
        doms = S.attrs['domains']
        c = s.c
        if c.choose(2, 'get_mode answers a mode'):
            name, ix = it.fresh_name('mode')
            nm.reg_range(name, lambda a: M)
            q = PA(name, *ix) if ix else V(fresh('mode', M))
            c.assume(ILe(0, q))
            c.assume(ILt(q, M))
            c.assume(in_domain(nm.list_getitem(doms, I(q)), x.val(), u.val(), TOL))
            k = fresh('k', q)
            c.assume(Forall([(k, q)], Not(in_domain(nm.list_getitem(doms, V(k)), x.val(), u.val(), TOL))))
            c.calls.append(('mode', q))
            return q
        k = fresh('k', M)
        c.assume(Forall([(k, M)], Not(in_domain(nm.list_getitem(doms, V(k)), x.val(), u.val(), TOL))))
        c.calls.append(('mode', None))
        return None
    s.it.contracts[DTS + ':PieceWiseAffineSystem.get_mode'] = h


# ------------------------------------------------------------------ C16
def square_ok(nx, n2, n3):
    return And(IEq(nx, n2), IEq(nx, n3))


def _sizes(s):
    return s.dim('nx', 1), s.dim('n2'), s.dim('n3'), s.dim('n4'), s.dim('nu')


def _cont(s, affine, method, default=False):
    nx, n2, n3, n4, nu = _sizes(s)
    A, B = s.arr('A', nx, n2), s.arr('B', n3, nu)
    c = s.arr('c', n4) if affine else None
    h = s.real('h')
    cls = 'AffineSystem' if affine else 'LinearSystem'
    f = s.it.get(DTS, cls + '.from_continuous')
    args = [A, B] + ([c] if affine else []) + [h] + ([] if default else [method])
    r = s.call(f, *args)
    bad = Or(Not(IEq(nx, n2)), Not(IEq(nx, n3)), Lt(h, 0))
    if affine:
        bad = Or(bad, Not(IEq(nx, n4)))
    s.unchanged()
    if method not in ('zero_order_hold', 'explicit_euler'):
        s.expect_raise(r, 'ValueError', TRUE, 'unknown method')
        return
    s.expect_raise(r, 'ValueError', bad, 'incoherent sizes or negative step')
    if not r.ok:
        return
    o = r.value
    s.prove('class of the result', TRUE if o.cls.name == cls else FALSE)
    s.prove('dimensions', And(IEq(P(o.attrs['nx']), nx), IEq(P(o.attrs['nu']), nu)))
    x, u = s.arr('x', nx), s.arr('u', nu)
    cv = c.val() if affine else Val([D(nx)], lambda l: T(0))
    if method == 'explicit_euler':
        got = addv(dotv(v(o, 'A'), x.val()), dotv(v(o, 'B'), u.val()), *([v(o, 'c')] if affine else []))
        der = addv(dotv(A.val(), x.val()), dotv(B.val(), u.val()), cv)
        want = ar.elementwise(lambda p, q: p + h * q, x.val(), der)
        s.prove('next state is x + h times the derivative', val_eq(got, want))
        return
    ex = [z for z in s.c.calls if z[0] == 'expm']
    if len(ex) != 1:
        raise Unsupported('zero-order hold not computed by one matrix exponential')
    _, M, E = ex[0]
    n = nx + nu + 1
    s.prove('order of the augmented matrix', And(IEq(dsize(M.dims[0]), n), IEq(dsize(M.dims[1]), n)))
    top, dx, du, d1 = D(nx), D(nx), D(nu), D(1)
    # the augmented matrix is h [[A, B, c], [0, 0, 0]]
    want = ar.concat([ar.concat([sc(A.val(), h), sc(B.val(), h), col(sc(cv, h))], 1),
                      Val([D(nu + 1), D(nx) + D(nu) + D(1)], lambda a, b: T(0))], 0)
    s.prove('augmented matrix is h [[A, B, c], [0, 0, 0]]', val_eq(M, want))
    # the result reads the blocks of its exponential
    i, j, k = fresh('i', nx), fresh('j', nx), fresh('k', nu)
    e = lambda a, b: at2(E, a, b)
    s.prove('A is the state block of the exponential', Eq(v(o, 'A').at((0, V(i)), (0, V(j))), e(V(i), V(j))))
    if s.branch(ILt(0, nu)):
        s.prove('B is the input block of the exponential', Eq(v(o, 'B').at((0, V(i)), (0, V(k))), e(V(i), nx + V(k))))
    if affine:
        s.prove('c is the last column of the exponential', Eq(v(o, 'c').at((0, V(i))), e(V(i), nx + nu)))


def sc(a, h):
    return ar.elementwise(lambda p: p * h, a)


def col(a):
    return Val([a.dims[0], D(1)], lambda p, q: a.at(p))


def at2(E, i, j):
    return nm.at_locs(E, [('idx', P(i)), ('idx', P(j))])


for _aff in (False, True):
    for _meth in ('zero_order_hold', 'explicit_euler', 'something else'):
        for _def in ((False, True) if _meth == 'zero_order_hold' else (False,)):
            def _f(s, a=_aff, m=_meth, d=_def):
                _cont(s, a, m, d)
            scenario('C16', '%s.from_continuous %s%s' % ('AffineSystem' if _aff else 'LinearSystem', _meth, ' (default)' if _def else ''),
                     [DTS + ':%s.from_continuous' % ('AffineSystem' if _aff else 'LinearSystem'),
                      DSM + (':zero_order_hold' if _meth == 'zero_order_hold' else ':explicit_euler'), DUT + ':check_affine_system'])(_f)


def _symbolic(s):
    nx, nu = s.dim('nx', 1), s.dim('nu', 1)
    A, B, c = s.arr('A', nx, nx), s.arr('B', nx, nu), s.arr('c', nx)
    x, u = sy.symvec('x', nx), sy.symvec('u', nu)
    e = sy.symexpr(nx, {'x': A.val(), 'u': B.val()}, c.val())
    return nx, nu, A, B, c, x, u, e


@scenario('C16', 'AffineSystem.from_symbolic', [DTS + ':AffineSystem.from_symbolic', DTS + ':get_state_transition_matrices'])
def _(s):
    nx, nu, A, B, c, x, u, e = _symbolic(s)
    r = s.call(s.it.get(DTS, 'AffineSystem.from_symbolic'), x, u, e)
    if not r.ok:
        s.fail('affine expressions accepted', r.exc)
        return
    xx, uu = s.arr('xx', nx), s.arr('uu', nu)
    o = r.value
    s.prove('update equals the expression', val_eq(addv(dotv(v(o, 'A'), xx.val()), dotv(v(o, 'B'), uu.val()), v(o, 'c')),
                                                   addv(dotv(A.val(), xx.val()), dotv(B.val(), uu.val()), c.val())))


@scenario('C16', 'LinearSystem.from_symbolic', [DTS + ':LinearSystem.from_symbolic', DTS + ':get_state_transition_matrices'])
def _(s):
    nx, nu, A, B, c, x, u, e = _symbolic(s)
    r = s.call(s.it.get(DTS, 'LinearSystem.from_symbolic'), x, u, e)
    zero = ar.forall_over(c.dims, lambda l: And(Le(c.val().at(l), T(1.e-8)), Le(-T(1.e-8), c.val().at(l))))
    s.expect_raise(r, 'ValueError', Not(zero), 'nonzero offset')
    if not r.ok:
        return
    xx, uu = s.arr('xx', nx), s.arr('uu', nu)
    o = r.value
    s.prove('update equals the expression up to the accepted offset', val_eq(addv(dotv(v(o, 'A'), xx.val()), dotv(v(o, 'B'), uu.val())),
                                                   addv(dotv(A.val(), xx.val()), dotv(B.val(), uu.val()))))


@scenario('C16', 'from_symbolic_continuous', [DTS + ':LinearSystem.from_symbolic_continuous', DTS + ':AffineSystem.from_symbolic_continuous'])
def _(s):
    nx, nu, A, B, c, x, u, e = _symbolic(s)
    h = s.real('h')
    aff = s.c.choose(2, 'affine')
    m = ('explicit_euler', 'nonsense')[s.c.choose(2, 'method')]
    r = s.call(s.it.get(DTS, ('AffineSystem' if aff else 'LinearSystem') + '.from_symbolic_continuous'), x, u, e, h, m)
    zero = ar.forall_over(c.dims, lambda l: And(Le(c.val().at(l), T(1.e-8)), Le(-T(1.e-8), c.val().at(l))))
    bad = Lt(h, 0) if aff else Or(Not(zero), Lt(h, 0))
    s.expect_raise(r, 'ValueError', TRUE if m == 'nonsense' else bad, 'nonzero offset, negative step or unknown method')
    if not r.ok:
        return
    o = r.value
    xx, uu = s.arr('xx', nx), s.arr('uu', nu)
    got = addv(dotv(v(o, 'A'), xx.val()), dotv(v(o, 'B'), uu.val()), *([v(o, 'c')] if aff else []))
    der = addv(dotv(A.val(), xx.val()), dotv(B.val(), uu.val()), *([c.val()] if aff else []))
    s.prove('explicit Euler of the given derivative', val_eq(got, ar.elementwise(lambda p, q: p + h * q, xx.val(), der)))


def _constructor(s, affine):
    nx, n2, n3, n4, nu = _sizes(s)
    A, B = s.arr('A', nx, n2), s.arr('B', n3, nu)
    c = s.arr('c', n4)
    r = s.new(s.cls(DTS, 'AffineSystem' if affine else 'LinearSystem'), *([A, B] + ([c] if affine else [])))
    bad = Or(Not(IEq(nx, n2)), Not(IEq(nx, n3)))
    if affine:
        bad = Or(bad, Not(IEq(nx, n4)))
    s.expect_raise(r, 'ValueError', bad, 'incoherent sizes')
    s.unchanged()
    if r.ok:
        o = r.value
        s.prove('dimensions', And(IEq(P(o.attrs['nx']), nx), IEq(P(o.attrs['nu']), nu)))
        s.prove('matrices kept', And(val_eq(v(o, 'A'), A.val()), val_eq(v(o, 'B'), B.val())))
        if affine:
            s.prove('offset kept', val_eq(v(o, 'c'), c.val()))


@scenario('C16', 'LinearSystem constructor', [DTS + ':LinearSystem.__init__', DUT + ':check_affine_system'])
def _(s):
    _constructor(s, False)


@scenario('C16', 'AffineSystem constructor', [DTS + ':AffineSystem.__init__', DUT + ':check_affine_system'])
def _(s):
    _constructor(s, True)


@scenario('C16', 'AffineSystem constructor refuses a two-dimensional offset', [DUT + ':check_affine_system'])
def _(s):
    nx, nu = s.dim('nx', 1), s.dim('nu')
    r = s.new(s.cls(DTS, 'AffineSystem'), s.arr('A', nx, nx), s.arr('B', nx, nu), s.arr('c', nx, 1))
    s.expect_raise(r, 'ValueError', TRUE, 'two-dimensional offset')


# ------------------------------------------------------------------ C01: symbolic polyhedra
def _symp(s, tag, n):
    m = s.dim('k' + tag)
    E, f = s.arr('E' + tag, m, n), s.arr('f' + tag, m)
    e = sy.symexpr(m, {'x': E.val()}, ar.elementwise(lambda p: -p, f.val()))
    return E, f, e


@scenario('C01', 'from_symbolic', [GEO + ':Polyhedron.from_symbolic', GEO + ':get_matrices_affine_expression'])
def _(s):
    n = s.dim('n', 1)
    x = sy.symvec('x', n)
    E, f, e = _symp(s, '1', n)
    G_, h, e2 = _symp(s, '2', n)
    eq = s.c.choose(2, 'with equalities')
    r = s.call(s.it.get(GEO, 'Polyhedron.from_symbolic'), x, e, *([e2] if eq else []))
    if not r.ok:
        s.fail('affine expressions accepted', r.exc)
        return
    y = s.arr('y', n)
    want = rows_le(E.val(), y.val(), f.val())
    if eq:
        want = And(want, rows_eq(G_.val(), y.val(), h.val()))
    proves_iff(s, 'point belongs exactly when the expressions are nonpositive / zero', member(r.value, y), want)


@scenario('C01', 'add_symbolic_*', [GEO + ':Polyhedron.add_symbolic_inequality', GEO + ':Polyhedron.add_symbolic_equality',
                                   GEO + ':get_matrices_affine_expression'])
def _(s):
    n = s.dim('n', 1)
    x = sy.symvec('x', n)
    o = polyhedron(s, '', n, caches=True)
    old = snap(o)
    E, f, e = _symp(s, '1', n)
    eq = s.c.choose(2, 'equality')
    r = s.method(o, 'add_symbolic_equality' if eq else 'add_symbolic_inequality', x, e)
    if not r.ok:
        s.fail('affine expressions accepted', r.exc)
        return
    y = s.arr('y', n)
    caches_clear(s, o)
    new = rows_eq(E.val(), y.val(), f.val()) if eq else rows_le(E.val(), y.val(), f.val())
    proves_iff(s, 'point belongs exactly when the expression is nonpositive / zero', member(o, y), And(member(None, y, old), new))
