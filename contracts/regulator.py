"""C17: infinite-horizon regulator and controllability."""
from ._lib import *
from .dynamics import addv, item, linsys, sc
from .control import quad, induct

LIN = DTS + ':LinearSystem.'


def dare_hook(s, seen):
    """solve_discrete_are(A, B, Q, R) (trusted): symmetric P with R + B'PB invertible and P = Q + A'PA - A'PB (R + B'PB)^-1 B'PA."""
    def h(it, a, k):
        if len(a) != 4 or k:
            raise Unsupported('solve_discrete_are with other arguments')
        nm.trust('scipy.linalg.solve_discrete_are returns a symmetric solution P of the Riccati equation of its arguments, with R + B^T P B invertible')
        A, B, Q, R = [val(x) for x in a]
        n = A.dims[0]
        P_ = Val([n, n], lambda x, y: Term.atom('Pr', ar.flat(n, x), ar.flat(n, y)))
        P_ = Arr(P_).val()
        Ps, name = nf.fresh_mat(it, 'dare', n, n, True)
        BP = ar.dot(T_(B), Ps)
        M = ar.elementwise(lambda x, y: x + y, R, ar.dot(BP, B))
        s.c.nonsing.append(lambda w: nf.same_matrix(w, M))
        Mi = val(nm.FN['numpy.linalg.inv'](it, [Arr(M)], {}))
        L = ar.dot(BP, A)
        seen.append((A, B, Q, R, Ps))
        res = addv(Q, ar.dot(ar.dot(T_(A), Ps), A), sc(ar.dot(T_(L), ar.dot(Mi, L)), T(-1)), sc(Ps, T(-1)))
        nf.add_zero_matrix(s.c, res, lambda fs: 100 if len(fs) == 1 and fs[0].name == 'Q' else 0, 'Riccati')
        return Arr(Ps)
    s.c.dare_hook = h


@scenario('C17', 'solve_dare', [LIN + 'solve_dare'], timeout=20000)
def _(s):
    S = linsys(s, affine=False)
    nx, nu = S.attrs['nx'], S.attrs['nu']
    Q, R = s.arr('Q', nx, nx, sym=True), s.arr('R', nu, nu, sym=True)
    seen, asked = [], []

    def ctr(it, args, kw):
        asked.append(s.c.branch(Pred('controllable')))
        return asked[-1]
    s.it.contracts[LIN + 'controllable'] = ctr
    dare_hook(s, seen)
    r = s.method(S, 'solve_dare', Q, R)
    if not r.ok:
        if r.exc == 'ValueError':
            s.prove('refused only if uncontrollable', Not(Pred('controllable')))
        else:
            s.fail('answers', r.exc)
        return
    s.prove('uncontrollable systems are refused', Pred('controllable'))
    s.unchanged()
    Pm, K = [val(z) for z in r.value]
    A, B, Q, R = v(S, 'A'), v(S, 'B'), Q.val(), R.val()
    s.prove('P is symmetric', val_eq(Pm, T_(Pm)))
    PA_, PB = ar.dot(Pm, A), ar.dot(Pm, B)
    st = addv(ar.dot(R, K), ar.dot(ar.dot(T_(B), PB), K), ar.dot(T_(B), PA_))
    s.lemma('the gain is the stationary point of the one-step cost', all_eq0(st))
    Acl = addv(A, ar.dot(B, K))
    s.prove('the cost-to-go satisfies the closed-loop Lyapunov equation',
            val_eq(Pm, addv(Q, ar.dot(T_(K), ar.dot(R, K)), ar.dot(T_(Acl), ar.dot(Pm, Acl)))))
    # one step: cost of any input = cost-to-go + a quadratic form of its distance from the feedback
    x, u = s.arr('x', nx).val(), s.arr('u', nu).val()
    xn = addv(ar.dot(A, x), ar.dot(B, u))
    e = sub_(u, ar.dot(K, x))
    W = addv(R, ar.dot(T_(B), PB))
    lhs = quad(x, Q, x) + quad(u, R, u) + quad(xn, Pm, xn)
    s.prove('one-step cost-to-go', Eq(lhs, quad(x, Pm, x) + quad(e, W, e)))


def power_law(s, i):
    """A^0 = I and A^i = A A^(i-1), for the powers introduced by numpy.linalg.matrix_power (definition)."""
    for key, M in s.c.powers.items():
        d = M.dims[0]
        pw = lambda k: Val([d, d], lambda x, y: Term.atom(key, P(k), ar.flat(d, x), ar.flat(d, y)))
        eye = Val([d, d], lambda x, y: Term.delta(ar.flat(d, x) - ar.flat(d, y)))
        nf.add_zero_matrix(s.c, sub_(pw(0), eye), lambda fs: 10 * len(fs), 'power 0')
        nf.add_zero_matrix(s.c, sub_(pw(i), ar.dot(M, pw(i - 1))), lambda fs: sum(10 for f in fs if f.idx and f.idx[0] == i), 'power')


@scenario('C17', 'controllable', [LIN + 'controllable'], timeout=20000)
def _(s):
    S = linsys(s, affine=False)
    nx, nu = S.attrs['nx'], S.attrs['nu']
    r = s.get(S, 'controllable')
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    rk = [z for z in s.c.calls if z[0] == 'rank']
    if len(rk) != 1:
        raise Unsupported('controllability without one rank computation')
    Rm, rank = rk[0][1], rk[0][2]
    ans = ip.fm(r.value) if not isinstance(r.value, bool) else (TRUE if r.value else FALSE)
    proves_iff(s, 'controllable iff the rank is full', ans, IEq(rank, nx))
    s.prove('shape of the controllability matrix', And(IEq(dsize(Rm.dims[0]), nx), IEq(dsize(Rm.dims[1]), nx * nu)))
    A, B = v(S, 'A'), v(S, 'B')
    blk = lambda i: Val([D(nx), D(nu)], lambda a, b: nm.at_locs(Rm, [('idx', a[1]), ('idx', nu * P(i) + b[1])]))
    i = V(fresh('i', nx))
    power_law(s, i)
    s.prove('first block is B', val_eq(blk(0), B))
    s.assume(ILe(1, i))
    s.prove('every block is the previous one times A', val_eq(blk(i), ar.dot(A, blk(i - 1))))
    # the answer is kept
    r2 = s.get(S, 'controllable')
    if not r2.ok:
        s.fail('answers again', r2.exc)
        return
    ans2 = ip.fm(r2.value) if not isinstance(r2.value, bool) else (TRUE if r2.value else FALSE)
    if len([z for z in s.c.calls if z[0] == 'rank']) == 1:
        proves_iff(s, 'same answer again', ans2, ans)


@scenario('C17', 'constructor does not assume controllability', [LIN + '__init__'])
def _(s):
    """A stored answer exists only after the computation."""
    nx, nu = s.dim('nx', 1), s.dim('nu', 1)
    r = s.new(s.cls(DTS, 'LinearSystem'), s.arr('A', nx, nx), s.arr('B', nx, nu))
    if not r.ok:
        s.fail('coherent matrices accepted', r.exc)
        return
    s.prove('no answer stored', TRUE if r.value.attrs.get('_controllable') is None else FALSE)
    s.prove('keeps A', val_eq(v(r.value, 'A'), ar.inputarr('A', nx, nx).val()))
    s.prove('keeps B', val_eq(v(r.value, 'B'), ar.inputarr('B', nx, nu).val()))
    s.prove('dimensions', And(IEq(P(r.value.attrs['nx']), nx), IEq(P(r.value.attrs['nu']), nu)))
    s.unchanged()
