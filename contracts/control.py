"""C15, C20, C22: condensed dynamics and optimal control problems."""
from ._lib import *
from .dynamics import pwa, addv, dotv, item, linsys, sc


def blocks(n, d):
    return (R(n, fresh('r'), D(d)),)


def batom(name, *dims):
    """Array of atoms whose indices are the leaves (block, offset) of each dimension."""
    return Arr(Val(dims, lambda *ls: Term.atom(name, *[p for l in ls for p in ar.loc_leaves(l)])))


def blk(v, t, n):
    """Block t (of size n) of a vector made of blocks."""
    return Val([D(n)], lambda l: v.at((0, P(t), (0, l[1]))))


def quad(x, Q, y):
    return ar.dot(ar.dot(x, Q), y)


def mode_sequence(s, N, M):
    lg.APP_SIZE['mode'] = lambda a: M
    nm.reg_range('mode', lambda a: M)
    return s.fam(N, lambda t: PA('mode', t))


def condense_contract(s, N, nx, nu):
    """PieceWiseAffineSystem.condense: matrices with X_0 = x, X_{t+1} = A X_t + B u_t + c for the mode of step t (proved in C15);
    here they are arbitrary, the cost and the constraints being stated on X = A_bar x + B_bar u + c_bar."""
    bars = (batom('Abar', blocks(N + 1, nx), D(nx)), batom('Bbar', blocks(N + 1, nx), blocks(N, nu)), batom('cbar', blocks(N + 1, nx)))

    def h(it, args, kw):
        s.c.calls.append(('condense', list(args)))
        return bars
    s.it.contracts[DTS + ':PieceWiseAffineSystem.condense'] = h
    return bars


def stack_state(bars, x, u):
    A, B, c = [b.val() for b in bars]
    return addv(ar.dot(A, x), ar.dot(B, u), c)


def posdef_costs(s, nx, nu):
    return s.arr('Q', nx, nx, sym=True), s.arr('R', nu, nu, sym=True), s.arr('P', nx, nx, sym=True)


def dget(d, k):
    if not isinstance(d, DObj):
        raise Unsupported('not a dictionary')
    if k not in d.d:
        raise Unsupported('no entry %s' % k)
    return d.d[k]


def mpqp_value(o, x, u):
    """Cost of the parametric program at (x, u)."""
    H, f = o.attrs['H'], o.attrs['f']
    Huu, Hux, Hxx = [val(dget(H, k)) for k in ('uu', 'ux', 'xx')]
    fu, fx = val(dget(f, 'u')), val(dget(f, 'x'))
    g = o.attrs['g']
    half = T(0.5)
    return half * quad(u, Huu, u) + ar.dot(u, ar.dot(Hux, x)) + half * quad(x, Hxx, x) + ar.dot(fu, u) + ar.dot(fx, x) + T(nm.num(g))


def ocp_spec(s, o, S, dom, N, nx, nu, bars, Q, Rm, Pm, XN, modes, tag=''):
    x, u = s.arr('x', nx).val(), batom('u', blocks(N, nu)).val()
    X = stack_state(bars, x, u)
    t = fresh('t', N)
    st = blk(X, V(t), nx)
    ut = blk(u, V(t), nu)
    XT = blk(X, N, nx)
    half = T(0.5)
    cost = (half * (quad(st, Q.val(), st) + quad(ut, Rm.val(), ut))).sum(t, N) + half * quad(XT, Pm.val(), XT)
    s.prove('cost of the program is the cost of the trajectory', Eq(mpqp_value(o, x, u), cost))
    # constraints
    A, b = o.attrs['A'], val(o.attrs['b'])
    got = rows_le(Val_add(ar.dot(val(dget(A, 'u')), u), ar.dot(val(dget(A, 'x')), x)), None, b)
    q = PA('mode', V(t)) if modes else P(0)
    d = dom(q)
    DA, Db = v(d, 'A'), v(d, 'b')
    xu = ar.concat([st, ut], 0)
    stage = Forall([(t, N)], rows_le(DA, xu, Db))
    want = And(stage, rows_le(v(XN, 'A'), XT, v(XN, 'b')))
    s.prove('feasible inputs give admissible trajectories', Implies(got, want))
    s.prove('inputs of admissible trajectories are feasible', Implies(want, got))


def Val_add(a, b):
    return addv(a, b)


def rows_le(A, x, b, slack=0):
    r = ar.elementwise(lambda p, q: Le(p, q + slack), A if x is None else ar.dot(A, x), b, boolean=True)
    return ar.forall_over(r.dims, r.at)


def simple_init(s):
    """MultiParametricQuadraticProgram.__init__ (C21): keeps the data; needs an invertible H_uu."""
    s.c.nonsing.append(lambda w: True)


@scenario('C20', 'condense_optimal_control_problem', [CTL + ':condense_optimal_control_problem', PAR + ':MultiParametricQuadraticProgram.__init__'], timeout=20000)
def _(s):
    S, sysm, dom, nx, nu, M = pwa(s)
    N = s.dim('N', 1)
    modes = mode_sequence(s, N, M)
    bars = condense_contract(s, N, nx, nu)
    Q, Rm, Pm = posdef_costs(s, nx, nu)
    XN = polyhedron(s, 'N', nx, p=0)
    s.c.nonsing.append(lambda w: True)
    r = s.call(s.it.get(CTL, 'condense_optimal_control_problem'), S, Q, Rm, Pm, XN, modes)
    if not r.ok:
        s.fail('the program is built', r.exc)
        return
    ca = [z for z in s.c.calls if z[0] == 'condense']
    if len(ca) != 1:
        raise Unsupported('condense called %d times' % len(ca))
    s.prove('condenses the given system and modes', veq(ca[0][1][1], modes))
    s.prove('condenses the given system', TRUE if ca[0][1][0] is S else FALSE)
    s.unchanged()
    ocp_spec(s, r.value, S, dom, N, nx, nu, bars, Q, Rm, Pm, XN, True)


@scenario('C20', 'ModelPredictiveController.__init__', [CTL + ':ModelPredictiveController.__init__', CTL + ':ModelPredictiveController._condense_program',
                                                        CTL + ':condense_optimal_control_problem', DTS + ':PieceWiseAffineSystem.__init__'], timeout=20000)
def _(s):
    S = linsys(s, affine=False)
    nx, nu = S.attrs['nx'], S.attrs['nu']
    N = s.dim('N', 1)
    bars = condense_contract(s, N, nx, nu)
    Q, Rm, Pm = posdef_costs(s, nx, nu)
    Dm = polyhedron(s, 'D', nx + nu, p=0)
    XN = polyhedron(s, 'N', nx, p=0)
    s.c.nonsing.append(lambda w: True)
    r = s.new(s.cls(CTL, 'ModelPredictiveController'), S, N, Q, Rm, Pm, Dm, XN)
    if not r.ok:
        s.fail('the controller is built', r.exc)
        return
    o = r.value
    ca = [z for z in s.c.calls if z[0] == 'condense']
    if len(ca) != 1:
        raise Unsupported('condense called %d times' % len(ca))
    S1, modes = ca[0][1][:2]
    s.prove('one mode per step', IEq(P(modes.length()), N))
    t = V(fresh('t', N))
    a = nm.list_getitem(S1.attrs['affine_systems'], item(modes, t))
    s.prove('every step uses the system', And(val_eq(v(a, 'A'), v(S, 'A')), val_eq(v(a, 'B'), v(S, 'B')),
                                              ar.forall_over(v(a, 'c').dims, lambda l: Eq(v(a, 'c').at(l), 0))))
    s.unchanged()
    r2 = s.method(o, 'feedforward_explicit', s.arr("x'", nx))
    if r2.ok or r2.exc != 'ValueError':
        s.fail('no explicit solution is available before it is computed', r2.exc if not r2.ok else 'no exception')
    ocp_spec(s, o.attrs['mpqp'], S1, lambda q: Dm, N, nx, nu, bars, Q, Rm, Pm, XN, False)


@scenario('C20', 'HybridModelPredictiveController.get_mpqp', [CTL + ':HybridModelPredictiveController.get_mpqp'], timeout=20000)
def _(s):
    S, sysm, dom, nx, nu, M = pwa(s)
    N = s.dim('N', 1)
    modes = mode_sequence(s, N, M)
    bars = condense_contract(s, N, nx, nu)
    Q, Rm, Pm = posdef_costs(s, nx, nu)
    XN = polyhedron(s, 'N', nx, p=0)
    s.c.nonsing.append(lambda w: True)
    o = s.obj(CTL, 'HybridModelPredictiveController', S=S, N=s.dim('N2', 1), Q=Q, R=Rm, P=Pm, X_N=XN)
    r = s.method(o, 'get_mpqp', modes)
    if not r.ok:
        s.fail('the program is built', r.exc)
        return
    ca = [z for z in s.c.calls if z[0] == 'condense']
    if len(ca) != 1:
        raise Unsupported('condense called %d times' % len(ca))
    s.prove('condenses the given system and modes', veq(ca[0][1][1], modes) if ca[0][1][0] is S else FALSE)
    ocp_spec(s, r.value, S, dom, N, nx, nu, bars, Q, Rm, Pm, XN, True)


def solve_contract(s, name, fields):
    """Contract of a `solve(x)`: a dictionary of None, or a minimum and its minimizer (optimality: C21 / C13)."""
    def h(it, args, kw):
        c = s.c
        if c.choose(2, 'solved'):
            d = {'min': Term.atom('Vmin')}
            for k, n in fields.items():
                d[k] = batom('sol_' + k, n)
            d.setdefault('active_set', Opaque('active'))
            c.calls.append(('solve', list(args), d))
            return DObj(d)
        c.calls.append(('solve', list(args), None))
        d = {k: None for k in fields}
        d.update({'min': None, 'active_set': None})
        return DObj(d)
    s.it.contracts[name] = h


def first_of(l, what):
    """Block t of a flat vector of blocks."""


@scenario('C20', 'feedforward and feedback', [CTL + ':ModelPredictiveController.feedforward', CTL + ':ModelPredictiveController.feedback'])
def _(s):
    S = linsys(s, affine=False)
    nx, nu = S.attrs['nx'], S.attrs['nu']
    N = s.dim('N', 1)
    mp = s.obj(PAR, 'MultiParametricQuadraticProgram')
    o = s.obj(CTL, 'ModelPredictiveController', S=S, N=N, mpqp=mp, explicit_solution=None)
    solve_contract(s, PAR + ':MultiParametricQuadraticProgram.solve', {'argmin': D(nu * N)})
    x = s.arr('x', nx)
    fb = s.c.choose(2, 'feedback')
    r = s.method(o, 'feedback' if fb else 'feedforward', x)
    if not r.ok:
        s.fail('the controller answers', r.exc)
        return
    ca = [z for z in s.c.calls if z[0] == 'solve']
    if len(ca) != 1:
        raise Unsupported('solve called %d times' % len(ca))
    s.prove('solves its program at the state', veq(ca[0][1][1], x) if ca[0][1][0] is mp else FALSE)
    s.unchanged()
    sol = ca[0][2]
    piece = lambda t: Arr(Val([D(nu)], lambda l: Term.atom('sol_argmin', nu * t + l[1])))
    if fb:
        if sol is None:
            s.prove('None when infeasible', TRUE if r.value is None else FALSE)
        else:
            s.prove('first input of the minimizer', veq(r.value, piece(P(0))))
        return
    if not isinstance(r.value, tuple) or len(r.value) != 2:
        raise Unsupported('shape of the answer')
    us, V_ = r.value
    if sol is None:
        s.prove('None when infeasible', TRUE if us is None and V_ is None else FALSE)
        return
    s.prove('optimal cost', Eq(T(V_), sol['min']))
    s.prove('one input per step', IEq(P(us.length()), N))
    t = V(fresh('t', N))
    s.prove('inputs are the pieces of the minimizer', veq(item(us, t), piece(t)))


@scenario('C21', 'feedforward_explicit and feedback_explicit', [CTL + ':ModelPredictiveController.feedforward_explicit', CTL + ':ModelPredictiveController.feedback_explicit'])
def _(s):
    S = linsys(s, affine=False)
    nx, nu = S.attrs['nx'], S.attrs['nu']
    N = s.dim('N', 1)
    stored = s.c.choose(2, 'explicit solution stored')
    ex = s.obj(PAR, 'ExplicitSolution') if stored else None
    o = s.obj(CTL, 'ModelPredictiveController', S=S, N=N, explicit_solution=ex)
    found = s.c.choose(2, 'some region contains x') if stored else 0
    x = s.arr('x', nx)
    xs = []

    def mk(val):
        def h(it, args, kw):
            xs.append(list(args))
            return val if found else None
        return h
    s.it.contracts[PAR + ':ExplicitSolution.u'] = mk(batom('uex', D(nu * N)))
    s.it.contracts[PAR + ':ExplicitSolution.V'] = mk(Term.atom('Vex'))
    fb = s.c.choose(2, 'feedback')
    r = s.method(o, 'feedback_explicit' if fb else 'feedforward_explicit', x)
    s.unchanged()
    if not stored:
        s.prove('refused before the explicit solution is stored', TRUE if r.exc == 'ValueError' else FALSE)
        return
    if not r.ok:
        s.fail('the controller answers', r.exc)
        return
    for a in xs:
        s.prove('evaluated at the state', veq(a[1], x) if a[0] is ex else FALSE)
    piece = lambda t: Arr(Val([D(nu)], lambda l: Term.atom('uex', nu * t + l[1])))
    if fb:
        s.prove('first input of the explicit solution' if found else 'None outside of every region',
                (veq(r.value, piece(P(0))) if found and r.value is not None else (TRUE if r.value is None and not found else FALSE)))
        return
    us, V_ = r.value
    if not found:
        s.prove('None outside of every region', TRUE if us is None and V_ is None else FALSE)
        return
    s.prove('explicit cost', Eq(T(V_), Term.atom('Vex')))
    s.prove('one input per step', IEq(P(us.length()), N))
    t = V(fresh('t', N))
    s.prove('inputs are the pieces of the explicit solution', veq(item(us, t), piece(t)))


# ------------------------------------------------------------------ C15: condensed dynamics
def expand_factor(t, name, when, build):
    """Replace every factor name[idx] with when(idx) by the (equal) term build(idx)."""
    r = T(0)
    for mo, c in t.m.values():
        b, fs = mo.rename_apart()
        keep, ex = [], []
        for f in fs:
            (ex if f.name == name and when(f.idx) else keep).append(f)
        x = Term.make([((tuple(()), tuple(keep)), c)])
        for f in ex:
            for _ in range(f.pw):
                x = x * build(f.idx)
        for w, sz in reversed(list(b)):
            x = x.sum(w, sz)
        r = r + x
    return r


def productory_contract(s, nx, Aatom):
    """productory(L): for L = [M_i, M_{i-1}, .., M_j] (i >= j) the product M_i .. M_j, written Pi(i, j); Pi(i, j) = 0 for i < j.
    Its recursion Pi(i, i) = M_i, Pi(i, j) = Pi(i, j + 1) M_j is proved in the scenario `productory`."""
    def h(it, args, kw):
        l = args[0]
        if not isinstance(l, LObj):
            raise Unsupported('productory of something else')
        if not s.c.branch(ILt(0, P(l.length()))):
            raise PyRaise('IndexError')
        if l.concrete():
            xs = l.items()
            r = xs[0]
            for y in xs[1:]:
                r = Arr(ar.dot(r.val(), y.val()))
            return r
        if len(l.segs) != 1:
            raise Unsupported('productory of a mixed list')
        _, n, var, g = l.segs[0]
        a, b = fresh('g', nx), fresh('g', nx)
        t = g.val().at((0, V(a)), (0, V(b)))
        up, i = start_index(t, var, V(a), V(b))
        if up:
            # increasing order: another function of the first index and the number of factors
            return Arr(Val([D(nx), D(nx)], lambda p, q: Term.atom('PiUp', i, P(n), p[1], q[1])))
        return Arr(Val([D(nx), D(nx)], lambda p, q: Term.atom('Pi', i, i - P(n) + 1, p[1], q[1])))

    def start_index(t, var, a, b):
        """(False, p + var) when the element number var of the list is M_p with p decreasing, (True, p - var) if increasing."""
        f = single_factor(t)
        if f is None or f.name != Aatom or len(f.idx) != 3 or f.idx[1] != a or f.idx[2] != b:
            raise Unsupported('list given to productory')
        ap = f.idx[0].single()
        if not isinstance(ap, App) or ap.name != 'mode':
            raise Unsupported('list given to productory')
        for up, i in ((False, ap.args[0] + V(var)), (True, ap.args[0] - V(var))):
            if var not in i.vars():
                return up, i
        raise Unsupported('list given to productory')
    s.it.contracts[DTS + ':productory'] = h


@scenario('C15', 'productory', [DTS + ':productory'])
def _(s):
    nx, n = s.dim('nx', 1), s.dim('n', 1)
    M = lambda k: Arr(Val([D(nx), D(nx)], lambda a, b: Term.atom('M', P(k), a[1], b[1])))
    r = s.call(s.it.get(DTS, 'productory'), s.fam(n, M))
    if not r.ok:
        s.fail('non-empty list accepted', r.exc)
        return
    # specification: LP(0) = M_0, LP(k + 1) = LP(k) M_{k+1}; the result is LP(n - 1)
    LP = lambda k: Val([D(nx), D(nx)], lambda a, b: Term.atom('LP', P(k), a[1], b[1]))
    s.assume(val_eq(LP(0), M(0).val()))
    k = fresh('k', n - 1)
    if s.branch(ILt(1, n)):
        s.assume(Forall([(k, n - 1)], val_eq(LP(V(k) + 1), ar.dot(LP(V(k)), M(V(k) + 1).val()))))
    res = r.value.val()
    i, j = fresh('i', nx), fresh('j', nx)
    t = res.at((0, V(i)), (0, V(j)))
    f = single_factor(t)
    if f is not None and f.name != 'M' and f.idx[0] == n - 1:
        gen = lambda k: Val([D(nx), D(nx)], lambda a, b: Term.atom(f.name, *(list(f.idx[:0]) + [P(k), a[1], b[1]])))
        induct(s, 'product of the first matrices', n, gen, LP)
    s.prove('the product of all matrices, from left to right', val_eq(res, LP(n - 1)))


def single_factor(t):
    ms = list(T(t).m.values())
    if len(ms) != 1 or ms[0][1] != 1 or ms[0][0].bound or len(ms[0][0].factors) != 1:
        return None
    return ms[0][0].factors[0]


def induct(s, name, n, f, g):
    """Matrix functions f and g agree on 0 .. n-1: base, step (hypothesis as a rewrite rule), then the quantified conclusion."""
    c = s.c
    ok = s.prove(name + ': base', val_eq(f(P(0)), g(P(0))))
    mk = c.mark()
    k = fresh('k', n - 1)
    c.assume(ILt(0, n - 1))
    nf.add_zero_matrix(c, ar.elementwise(lambda x, y: x - y, f(V(k)), g(V(k))), None, 'induction hypothesis')
    for q in list(c.facts):
        # consequences of the facts under the hypothesis
        if q.op == 'forall' and q.a[0][0][1] == n - 1:
            c.assume(Forall(list(q.a[0])[1:], q.a[1].subst({q.a[0][0][0]: V(k)})))
    ok = s.prove(name + ': step', val_eq(f(V(k) + 1), g(V(k) + 1))) and ok
    c.rollback(mk)
    if ok:
        q = fresh('q', n)
        c.assume(Forall([(q, n)], val_eq(f(V(q)), g(V(q)))))
    return ok


def Mt(nx, t):
    return Val([D(nx), D(nx)], lambda a, b: Term.atom('SA', PA('mode', P(t)), a[1], b[1]))


def Pi(nx, i, j):
    return Val([D(nx), D(nx)], lambda a, b: Term.atom('Pi', P(i), P(j), a[1], b[1]))


def left_peel(nx):
    """Pi(i, j) = [j < i] M_i Pi(i-1, j) + [i = j] M_i (proved by induction in the lemma below)."""
    def build(idx):
        i, j, r, c = idx
        a = ar.dot(Mt(nx, i), Pi(nx, i - 1, j)).at((0, r), (0, c))
        return Term.ge(i - 1 - j) * a + Term.delta(i - j) * Mt(nx, i).at((0, r), (0, c))
    return build


@scenario('C15', 'lemma: a product of matrices peels from the left', [DTS + ':productory'])
def _(s):
    nx, n = s.dim('nx', 1), s.dim('n', 2)
    lg.APP_SIZE['mode'] = lambda a: V('M')
    i = V(fresh('i', n))
    s.assume(ILe(1, i))
    c = s.c
    # right recursion of the contract of productory, at the instances needed
    sub = lambda a, b: ar.elementwise(lambda x, y: x - y, a, b)
    nf.add_zero_matrix(c, sub(Pi(nx, i, i), Mt(nx, i)), lambda fs: sum(10 for f in fs if f.name == 'Pi'))
    nf.add_zero_matrix(c, sub(Pi(nx, i - 1, i - 1), Mt(nx, i - 1)), lambda fs: sum(10 for f in fs if f.name == 'Pi'))
    j = V(fresh('j', i - 1))
    pf = lambda q: (lambda fs: sum(10 for f in fs if f.name == 'Pi' and f.idx[1] == q))
    mk = c.mark()
    nf.add_zero_matrix(c, sub(Pi(nx, i, i - 1), ar.dot(Pi(nx, i, i), Mt(nx, i - 1))), pf(i - 1))
    s.prove('base', val_eq(Pi(nx, i, i - 1), ar.dot(Mt(nx, i), Pi(nx, i - 1, i - 1))))
    c.rollback(mk)
    if s.branch(ILt(1, i)):
        nf.add_zero_matrix(c, sub(Pi(nx, i, j), ar.dot(Pi(nx, i, j + 1), Mt(nx, j))), pf(j))
        nf.add_zero_matrix(c, sub(Pi(nx, i - 1, j), ar.dot(Pi(nx, i - 1, j + 1), Mt(nx, j))), pf(j))
        nf.add_zero_matrix(c, sub(Pi(nx, i, j + 1), ar.dot(Mt(nx, i), Pi(nx, i - 1, j + 1))), lambda fs: sum(10 for f in fs if f.name == 'Pi' and f.idx[0] == i))
        s.prove('step', val_eq(Pi(nx, i, j), ar.dot(Mt(nx, i), Pi(nx, i - 1, j))))


def flat_blk(v, t, n):
    """Entries n t .. n t + n - 1 of a vector."""
    return Val([D(n)], lambda l: nm.at_locs(v, [('idx', n * P(t) + l[1])]))


def condensed_spec(s, Ab, Bb, cb, N, nx, nu, sysm, modes):
    x, u = s.arr('x', nx).val(), batom('u', blocks(N, nu)).val()
    X = addv(ar.dot(Ab, x), ar.dot(Bb, u), *([cb] if cb is not None else []))
    s.prove('number of stacked states', IEq(dsize(X.dims[0]), nx * (N + 1)))
    i = fresh('i', nx)
    s.prove('starts at the initial state', Eq(flat_blk(X, 0, nx).at((0, V(i))), x.at((0, V(i)))))
    t = V(fresh('t', N))
    for k in (0, 1):
        if t.vars() and s.branch(IEq(t, k)):
            t = P(k)
    q = modes(t)
    a, b = flat_blk(X, t, nx), flat_blk(X, t + 1, nx)
    S = sysm(q)
    rhs = addv(ar.dot(v(S, 'A'), a), ar.dot(v(S, 'B'), blk(u, t, nu)), *([v(S, 'c')] if 'c' in S.attrs else []))
    lhs = b.at((0, V(i)))
    lhs = expand_factor(lhs, 'Pi', lambda idx: idx[0] == t, left_peel(nx))
    s.prove('every stacked state follows from the previous one', Eq(lhs, rhs.at((0, V(i)))))


@scenario('C15', 'condense_pwa_system', [DTS + ':condense_pwa_system', DTS + ':PieceWiseAffineSystem.condense'], timeout=20000)
def _(s):
    S, sysm, dom, nx, nu, M = pwa(s)
    N = s.dim('N', 1)
    modes = mode_sequence(s, N, M)
    productory_contract(s, nx, 'SA')
    r = s.method(S, 'condense', modes)
    if not r.ok:
        s.fail('the system is condensed', r.exc)
        return
    Ab, Bb, cb = [a.val() for a in r.value]
    s.unchanged()
    condensed_spec(s, Ab, Bb, cb, N, nx, nu, sysm, lambda t: PA('mode', t))


@scenario('C15', 'LinearSystem.condense and AffineSystem.condense', [DTS + ':LinearSystem.condense', DTS + ':AffineSystem.condense'])
def _(s):
    aff = s.c.choose(2, 'affine')
    S = linsys(s, affine=bool(aff))
    nx, nu = S.attrs['nx'], S.attrs['nu']
    N = s.dim('N', 1)
    bars = (batom('Abar', blocks(N + 1, nx), D(nx)), batom('Bbar', blocks(N + 1, nx), blocks(N, nu)), batom('cbar', blocks(N + 1, nx)))
    seen = []

    def h(it, args, kw):
        seen.append(list(args))
        return bars
    s.it.contracts[DTS + ':condense_pwa_system'] = h
    s.it.contracts[DTS + ':PieceWiseAffineSystem.condense'] = lambda it, args, kw: h(it, [args[0].attrs['affine_systems'], args[1]], kw)
    r = s.method(S, 'condense', N)
    if not r.ok:
        s.fail('the system is condensed', r.exc)
        return
    s.unchanged()
    if len(seen) != 1:
        raise Unsupported('condense_pwa_system called %d times' % len(seen))
    l, modes = seen[0]
    s.prove('one mode per step', IEq(P(modes.length()), N))
    t = V(fresh('t', N))
    o = nm.list_getitem(l, item(modes, t))
    s.prove('every step uses the system', And(val_eq(v(o, 'A'), v(S, 'A')), val_eq(v(o, 'B'), v(S, 'B')),
                                              val_eq(v(o, 'c'), v(S, 'c') if aff else Val([D(nx)], lambda l: T(0)))))
    s.prove('number of matrices', TRUE if len(r.value) == (3 if aff else 2) else FALSE)
    for a, b in zip(r.value, bars):
        s.prove('returns the condensed matrices', val_eq(a.val(), b.val()))


@scenario('C15', 'lemma: without offsets the condensed offset is zero', [DTS + ':LinearSystem.condense'])
def _(s):
    nx, N = s.dim('nx', 1), s.dim('N', 1)
    A = s.arr('A', nx, nx).val()
    cb = lambda t: Val([D(nx), D(1)], lambda a, b: Term.atom('cb', P(t), a[1]))
    zero = lambda t: Val([D(nx), D(1)], lambda a, b: T(0))
    k = fresh('k', N)
    s.assume(val_eq(cb(0), zero(0)))
    s.assume(Forall([(k, N)], val_eq(cb(V(k) + 1), ar.dot(A, cb(V(k))))))
    induct(s, 'offset of every stacked state', N + 1, cb, zero)
