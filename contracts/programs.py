"""C11, C12: linear and quadratic programs through nonnegative least squares; program front ends."""
from ._lib import *
from .dynamics import addv, sc

TOL = T(1.e-7)


def scipy_nnls(s):
    """Trusted contract of scipy.optimize.nnls(A, b): v >= 0 and r >= 0 with r^2 = |A v - b|^2, v optimal: the gradient
    g = A^T (A v - b) is nonnegative and complementary (v . g = 0)."""
    def h(it, a, k):
        nm.trust('scipy.optimize.nnls: nonnegative v, r = |A v - b|, optimality conditions of min |A v - b| over v >= 0')
        A, b = val(a[0]), val(a[1])
        if A.ndim != 2 or b.ndim != 1:
            raise Unsupported('nnls shapes')
        y, _ = nf.fresh_vec(it, 'nn', A.dims[1])
        name, ix = it.fresh_name('nnr')
        r = Term.atom(name, *ix)
        w = sub_(ar.dot(A, y), b)
        g = ar.dot(T_(A), w)
        c = s.c
        c.assume(ar.forall_over(y.dims, lambda l: Le(0, y.at(l))))
        c.assume(Le(0, r))
        c.assume(Eq(r * r, sq_sum(w)))
        c.assume(ar.forall_over(g.dims, lambda l: Le(0, g.at(l))))
        d, m1, m2 = ar.align(y.dims[0], g.dims[0])
        c.assume(Eq(ar.sum_over(d, lambda l: T(y.at(m1(l))) * T(g.at(m2(l)))), 0))
        s.c.calls.append(('nnls', A, b, y, r, w, g))
        return Arr(y), r
    s.c.nnls_hook = h


def nnls_spec(s, A, b, y, r, name):
    w = sub_(ar.dot(A, y), b)
    g = ar.dot(T_(A), w)
    s.prove(name + ': nonnegative', ar.forall_over(y.dims, lambda l: Le(0, y.at(l))))
    s.prove(name + ': residual', And(Le(0, r), Eq(r * r, sq_sum(w))))
    s.prove(name + ': optimality', And(ar.forall_over(g.dims, lambda l: Le(0, g.at(l))), Eq(ar.dot(y, g), 0)))


@scenario(['C11', 'C12'], 'nnls', [NNL + ':nnls'])
def _(s):
    m, n = s.dim('m', 1), s.dim('n')
    A, b = s.arr('A', m, n), s.arr('b', m)
    scipy_nnls(s)
    r = s.call(s.it.get(NNL, 'nnls'), A, b)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    y, res = r.value
    nnls_spec(s, A.val(), b.val(), y.val(), nm.num(res), 'least squares')


def projector(s):
    """pinv: B B+ = Q symmetric idempotent, Q B = B."""
    def h(v, r, name):
        c = s.c
        Qn = name + '.Q'
        d = v.dims[0]
        Q = lambda a, b: Term.atom(Qn, ar.flat(d, a), ar.flat(d, b))
        tm.ATOMS.sym.add(Qn)
        Qv = Val([d, d], Q)
        p = ar.dot(v, r)
        nf.add_zero_matrix(c, Val([d, d], lambda a, b: T(p.at(a, b)) - Q(a, b)), lambda fs: sum(10 for f in fs if f.name.startswith(name) and f.name != Qn), 'pinv')
        q2 = ar.dot(Qv, Qv)
        nf.add_zero_matrix(c, Val([d, d], lambda a, b: T(q2.at(a, b)) - Q(a, b)), lambda fs: len(fs), 'pinv')
        qb = ar.dot(Qv, v)
        nf.add_zero_matrix(c, Val(v.dims, lambda a, b: T(qb.at(a, b)) - v.at(a, b)), lambda fs: sum(10 for f in fs if f.name == Qn), 'pinv')
        s.c.calls.append(('pinv', v, r, Qv))
    s.c.pinv_hook = h


def nnls_contract(s):
    """Contract of pnnls.nnls (proved in the scenario nnls)."""
    scipy_nnls(s)
    s.it.contracts[NNL + ':nnls'] = lambda it, args, kw: s.c.nnls_hook(it, args, kw)


@scenario('C11', 'pnnls', [NNL + ':pnnls'])
def _(s):
    m, n1, n2 = s.dim('m', 1), s.dim('n1'), s.dim('n2', 1)
    A, B, c = s.arr('A', m, n1), s.arr('B', m, n2), s.arr('c', m)
    projector(s)
    nnls_contract(s)
    r = s.call(s.it.get(NNL, 'pnnls'), A, B, c)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    v_, u, res = r.value
    v_, u, res = v_.val(), u.val(), nm.num(res)
    w = addv(ar.dot(A.val(), v_), ar.dot(B.val(), u), neg(c.val()))
    s.prove('nonnegative', ar.forall_over(v_.dims, lambda l: Le(0, v_.at(l))))
    s.prove('residual of the partially nonnegative problem', And(Le(0, res), Eq(res * res, sq_sum(w))))
    # optimality: gradient with respect to v nonnegative and complementary, gradient with respect to u zero
    gv, gu = ar.dot(T_(A.val()), w), ar.dot(T_(B.val()), w)
    s.prove('optimal in the nonnegative part', And(all_le(neg(gv)), Eq(ar.dot(v_, gv), 0)))
    s.prove('optimal in the free part', all_eq0(gu))
    # minimality (convexity): |w'|^2 - |w|^2 = |w' - w|^2 + 2 (v' . A^T w - v . A^T w + (u' - u) . B^T w)
    v2, u2 = s.arr("v'", n1).val(), s.arr("u'", n2).val()
    s.assume(all_le(neg(v2)))
    w2 = addv(ar.dot(A.val(), v2), ar.dot(B.val(), u2), neg(c.val()))
    squares_nonneg(s, sub_(w2, w))
    sum_nonneg(s, "v' . A^T w", v2.dims, lambda l: T(v2.at(l)) * T(gv.at(l)))
    s.prove('no nonnegative v and u have a smaller residual', Le(res * res, sq_sum(w2)))


# ------------------------------------------------------------------ linear programs
def pnnls_contract(s):
    """Contract of pnnls(A, B, c) (proved in the scenario pnnls): v >= 0, r = |w| with w = A v + B u - c, and
    minimality among all v' >= 0, u' (instantiated where needed).  Every component of w is at most |w| in absolute value."""
    def h(it, args, kw):
        A, B, c = [val(x) for x in args]
        d, m1, m2 = ar.align(A.dims[0], B.dims[0])
        d2, k1, k2 = ar.align(d, c.dims[0])
        y, _ = nf.fresh_vec(it, 'pv', A.dims[1])
        u, _ = nf.fresh_vec(it, 'pu', B.dims[1])
        name, ix = it.fresh_name('pr')
        r = Term.atom(name, *ix)
        w = addv(ar.dot(A, y), ar.dot(B, u), neg(c))
        s.assume(ar.forall_over(y.dims, lambda l: Le(0, y.at(l))))
        s.assume(Le(0, r))
        s.assume(Eq(r * r, sq_sum(w)))
        s.assume(ar.forall_over(w.dims, lambda l: And(Le(w.at(l), r), Le(-w.at(l), r))))
        s.c.calls.append(('pnnls', A, B, c, y, u, r, w))
        return Arr(y), Arr(u), r
    s.it.contracts[NNL + ':pnnls'] = h


def program(s, eq, n, m, p):
    """Inequalities and equalities of a program, with their arguments."""
    A, b = s.arr('A', m, n), s.arr('b', m)
    args = [A, b]
    C = d = None
    if eq:
        C, d = s.arr('C', p, n), s.arr('d', p)
        args += [C, d]
    return A, b, C, d, args


FIELDS = ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')


def read_solution(s, r):
    if not r.ok:
        s.fail('the program is solved', r.exc)
        return None
    d = r.value
    if not isinstance(d, DObj):
        raise Unsupported('solution is not a dictionary')
    return {k: d.d.get(k) for k in FIELDS}


def none_fields(s, sol):
    bad = [k for k in FIELDS if sol[k] is not None]
    s.prove('None in all fields', TRUE if not bad else FALSE)


def active_spec(s, sol, m):
    act, mu = sol['active_set'], sol['multiplier_inequality'].val()
    if act is None:
        s.fail('active set reported', 'None')
        return
    i = fresh('i', m)
    isin = in_list(s, V(i), act)
    f = Lt(TOL, nm.at_locs(mu, [('idx', V(i))]))
    s.prove('active set: only positive multipliers', Implies(isin, f))
    s.prove('active set: every positive multiplier', Implies(f, isin))
    index_list(s, 'active set', act, m)


def vec_at(x, i):
    return nm.at_locs(x, [('idx', P(i))])


@scenario('C11', 'linear_program', [NNL + ':linear_program'], timeout=15000)
def _(s):
    n, m = s.dim('n', 1), s.dim('m')
    eq = s.c.choose(2, 'equalities')
    p = s.dim('p') if eq else P(0)
    f = s.arr('f', n)
    A, b, C, d, args = program(s, eq, n, m, p)
    pnnls_contract(s)
    r = s.call(s.it.get(NNL, 'linear_program'), f, *args)
    sol = read_solution(s, r)
    if sol is None:
        return
    s.unchanged()
    fv = f.val()
    ca = [z for z in s.c.calls if z[0] == 'pnnls']
    if sol['argmin'] is not None:
        x, mu = sol['argmin'].val(), sol['multiplier_inequality'].val()
        s.prove('feasible within the tolerance', rows_le(A.val(), x, b.val(), TOL))
        s.prove('multipliers nonnegative', all_le(neg(mu)))
        grad = addv(fv, ar.dot(T_(A.val()), mu))
        gap = ar.dot(fv, x) + ar.dot(b.val(), mu)
        if eq and sol['multiplier_equality'] is not None:
            lam = sol['multiplier_equality'].val()
            res = sub_(ar.dot(C.val(), x), d.val())
            s.prove('equalities within the tolerance', And(all_le(res, const(res, TOL)), all_le(neg(res), const(res, TOL))))
            grad = addv(grad, ar.dot(T_(C.val()), lam))
            gap = gap + ar.dot(d.val(), lam)
        elif eq:
            s.prove('no equality multipliers only without equalities', IEq(p, 0))
        s.prove('stationarity within the tolerance', And(all_le(grad, const(grad, TOL)), all_le(neg(grad), const(grad, TOL))))
        s.prove('duality gap within the tolerance', And(Le(gap, TOL), Le(-gap, TOL)))
        dv = T(sol['min']) - ar.dot(fv, x)
        s.prove('value is the cost of the point', And(Le(dv, TOL), Le(-dv, TOL)))
        active_spec(s, sol, m)
        return
    none_fields(s, sol)
    # ghost: a point with exact certificate makes the least-squares residual zero
    if len(ca) != 1:
        raise Unsupported('pnnls called %d times' % len(ca))
    _, PA_, PB, pc, y, u, rr, w = ca[0]
    k = m + 2 * p
    if s.c.int_zero(dsize(PA_.dims[1]) - 2 * k) is not True or s.c.int_zero(dsize(PB.dims[1]) - n) is not True:
        raise Unsupported('shape of the least-squares problem')
    xs, mus = s.arr("x'", n).val(), s.arr("mu'", m).val()
    parts = [mus]
    slack = sub_(b.val(), ar.dot(A.val(), xs))
    sl = [slack]
    s.assume(all_le(neg(mus)))
    s.assume(all_le(neg(slack)))
    stat = addv(fv, ar.dot(T_(A.val()), mus))
    gap = ar.dot(fv, xs) + ar.dot(b.val(), mus)
    if eq and s.branch(ILt(0, p)):
        # the equality multipliers as difference of nonnegative ones
        np_, nn_ = s.arr("nu+'", p).val(), s.arr("nu-'", p).val()
        for q in (np_, nn_):
            s.assume(all_le(neg(q)))
        parts += [np_, nn_]
        e = sub_(d.val(), ar.dot(C.val(), xs))
        nf.add_zero_matrix(s.c, col(e), lambda fs: sum(10 for g in fs if g.name == "x'"))
        s.assume(all_eq0(e))
        sl += [e, neg(e)]
        diff = sub_(np_, nn_)
        stat = addv(stat, ar.dot(T_(C.val()), diff))
        gap = gap + ar.dot(d.val(), diff)
    s.assume(all_eq0(stat))
    s.assume(Eq(gap, 0))
    vs = ar.concat(parts + sl, 0)
    wp = addv(ar.dot(PA_, vs), ar.dot(PB, xs), neg(pc))
    ok = s.prove('the certificate is a nonnegative point of the least-squares problem', all_le(neg(vs)))
    ok = s.prove('with zero residual', all_eq0(wp)) and ok
    if ok:
        # minimality of the residual (contract of pnnls) at this point
        s.assume(Le(rr * rr, 0))
    s.prove('None only if there is no optimal point with multipliers', FALSE)


def const(like, t):
    return Val(like.dims, lambda *l: t)


def col(v_):
    return Val([v_.dims[0], D(1)], lambda a, b: v_.at(a))


@scenario(['C11', 'C12'], 'programs refuse one of C and d alone', [NNL + ':linear_program', NNL + ':quadratic_program'])
def _(s):
    n, m, p = s.dim('n', 1), s.dim('m'), s.dim('p')
    f, H = s.arr('f', n), s.arr('H', n, n, sym=True)
    A, b, C, d = s.arr('A', m, n), s.arr('b', m), s.arr('C', p, n), s.arr('d', p)
    for e in ((C, None), (None, d)):
        s.expect_raise(s.call(s.it.get(NNL, 'linear_program'), f, A, b, *e), 'ValueError', TRUE, 'linear program')
        s.expect_raise(s.call(s.it.get(NNL, 'quadratic_program'), H, f, A, b, *e), 'ValueError', TRUE, 'quadratic program')


@scenario('C12', 'quadratic_program', [NNL + ':quadratic_program'], timeout=15000)
def _(s):
    n, m = s.dim('n', 1), s.dim('m')
    eq = s.c.choose(2, 'equalities')
    p = s.dim('p') if eq else P(0)
    H, f = s.arr('H', n, n, sym=True), s.arr('f', n)
    A, b, C, d, args = program(s, eq, n, m, p)
    s.c.posdef.append(lambda w: True)
    nnls_contract(s)
    r = s.call(s.it.get(NNL, 'quadratic_program'), H, f, *args)
    sol = read_solution(s, r)
    if sol is None:
        return
    s.unchanged()
    ca = [z for z in s.c.calls if z[0] == 'nnls']
    if len(ca) != 1:
        raise Unsupported('nnls called %d times' % len(ca))
    _, NA, Nb, y, rr, w, g = ca[0]
    fv = f.val()
    haseq = eq and s.branch(ILt(0, p))
    # theta = 1 + m.y = - last residual; r^2 = theta by complementarity
    last = ar.loc_of_index(w.dims[0], n)
    th = -T(w.at(last))
    s.prove('square of the residual', Eq(rr * rr, th))
    if sol['argmin'] is not None:
        s.prove('solved only if the residual is positive', Lt(0, rr))
        s.lemma('scale is positive', Lt(0, th))
        rho = nm.reciprocal(th)
        s.assume(Eq(rho * th, 1))            # definition of the quotient
        s.lemma('its inverse too', Lt(0, rho))
        x, mu = sol['argmin'].val(), sol['multiplier_inequality'].val()
        mul_nonneg(s, 'scaled gradient', g.dims, lambda l: rho, lambda l: g.at(l))
        s.assume(ar.forall_over(g.dims, lambda l: Eq((rho * th - 1) * nm.at_locs(g_m(NA, last, g), [l]), 0)))
        s.prove('feasible', rows_le(A.val(), x, b.val()))
        s.prove('multipliers nonnegative', all_le(neg(mu)))
        grad = addv(ar.dot(H.val(), x), fv, ar.dot(T_(A.val()), mu))
        if haseq:
            res = sub_(ar.dot(C.val(), x), d.val())
            s.prove('equalities hold', And(all_le(res), all_le(neg(res))))
            lam = sol['multiplier_equality'].val()
            grad = addv(grad, ar.dot(T_(C.val()), lam))
        s.prove('stationarity', all_eq0(grad))
        s.prove('value is the cost of the point', Eq(T(sol['min']), T(0.5) * ar.dot(ar.dot(x, H.val()), x) + ar.dot(fv, x)))
        # complementarity: every product y_i g_i vanishes
        d_, m1, m2 = ar.align(y.dims[0], g.dims[0])
        sum_zero(s, 'complementary products', [d_], lambda l: T(y.at(m1(l))) * T(g.at(m2(l))))
        gm = g_m(NA, last, g)
        s.assume(ar.forall_over([d_], lambda l: And(Eq(rho * rho * y.at(m1(l)) * g.at(m2(l)), 0),
                                                    Eq((rho * th - 1) * rho * y.at(m1(l)) * gm.at(m2(l)), 0))))
        slack = sub_(b.val(), ar.dot(A.val(), x))
        e, k1, k2 = ar.align(mu.dims[0], slack.dims[0])
        s.prove('complementarity', ar.forall_over([e], lambda l: Eq(mu.at(k1(l)) * slack.at(k2(l)), 0)))
        active_spec(s, sol, m)
        return
    none_fields(s, sol)
    # ghost: a feasible point (of cost less than 5e11 above the unconstrained minimum) contradicts the residual
    L = getattr(s.c, 'chol', None)
    inv = [r_ for v_, r_ in s.c.inverses]
    if not isinstance(L, tuple) or len(inv) != 1:
        raise Unsupported('factorization of the cost')
    L, Li = L[1], inv[0]
    xs = s.arr("x'", n).val()
    feas = [sub_(b.val(), ar.dot(A.val(), xs))]
    if haseq:
        e = sub_(d.val(), ar.dot(C.val(), xs))
        feas += [e, neg(e)]
    slack = ar.concat(feas, 0)
    s.assume(all_le(neg(slack)))
    d_, m1, m2 = ar.align(y.dims[0], slack.dims[0])
    sum_nonneg(s, 'multipliers times slacks', [d_], lambda l: T(y.at(m1(l))) * T(slack.at(m2(l))))
    z = addv(ar.dot(T_(L), xs), ar.dot(Li, fv))
    s.prove('distance to the unconstrained minimum', Eq(sq_sum(z), ar.dot(ar.dot(xs, H.val()), xs) + 2 * ar.dot(fv, xs) + sq_sum(ar.dot(Li, fv))))
    s.assume(Le(sq_sum(z), T(1.e12)))
    wt = Val([D(n)], lambda l: w.at(ar.loc_of_index(w.dims[0], l[1])))
    squares_nonneg(s, ar.elementwise(lambda p_, q_: p_ - T(1.e-13) * q_, wt, z))
    s.lemma('residual within the tolerance', Le(rr * rr, TOL * TOL))
    s.prove('None only if no point is feasible', FALSE)


def g_m(NA, last, g):
    return Val(g.dims, lambda l: -T(NA.at(last, l)))
