"""Contracts of pympc.dynamics, checked at run time (C14 - C19)."""
import numpy as np
from common import *
from pympc.geometry.polyhedron import Polyhedron
from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem, mcais, condense_pwa_system, productory
from pympc.dynamics.discretization_methods import explicit_euler, zero_order_hold


def rsys(rng, nx=None, nu=None, affine=True):
    nx = int(rng.integers(1, 5)) if nx is None else nx
    nu = int(rng.integers(1, 4)) if nu is None else nu
    A, B, c = ints(rng, -2, 2, nx, nx), ints(rng, -2, 2, nx, nu), ints(rng, -2, 2, nx)
    return A, B, (c if affine else np.zeros(nx))


def rpwa(rng, nm=None, affine_only=True):
    """Piecewise-affine system with strips along the first coordinate as domains."""
    nx, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    nm = int(rng.integers(1, 5)) if nm is None else nm
    sys = [rsys(rng, nx, nu) for _ in range(nm)]
    cuts = np.sort(rng.choice(np.arange(-6, 7), nm - 1, replace=False)).astype(float) if nm > 1 else np.zeros(0)
    edges = np.concatenate(([-1e3], cuts, [1e3]))
    doms = []
    for i in range(nm):
        lo, hi = -1e3 * np.ones(nx + nu), 1e3 * np.ones(nx + nu)
        lo[0], hi[0] = edges[i], edges[i + 1]
        doms.append((np.vstack((np.eye(nx + nu), -np.eye(nx + nu))), np.concatenate((hi, -lo))))
    o = rng.permutation(nm)
    return nx, nu, sys, [doms[i] for i in o]


def mkpwa(sys, doms):
    return PieceWiseAffineSystem([AffineSystem(*s) for s in sys], [Polyhedron(*d) for d in doms])


# ------------------------------------------------------------------ C14
@case('C14', 2)
def simulate(rng, k):
    A, B, c = rsys(rng)
    nx, nu = B.shape
    N = int(rng.integers(0, 7))
    x0 = ints(rng, -3, 3, nx)
    u = [ints(rng, -2, 2, nu) for _ in range(N)]
    s = snap(A, B, c, x0, u)
    inp = dict(A=A, B=B, c=c, x0=x0, u=u)
    for S, off in ((LinearSystem(A, B), 0. * c), (AffineSystem(A, B, c), c)):
        x = S.simulate(x0, u)
        need(len(x) == N + 1, 'the trajectory does not have one state more than inputs', **inp)
        need(close(x[0], x0), 'the trajectory does not start at the given state', **inp)
        for t in range(N):
            need(close(x[t + 1], A.dot(x[t]) + B.dot(u[t]) + off), 'step %d does not follow the dynamics' % t, **inp)
    K = ints(rng, -1, 1, nu, nx)
    x = LinearSystem(A, B).simulate_closed_loop(x0, N, K)
    need(len(x) == N + 1 and close(x[0], x0), 'wrong closed-loop trajectory', K=K, **inp)
    for t in range(N):
        need(close(x[t + 1], A.dot(x[t]) + B.dot(K.dot(x[t]))), 'closed-loop step %d does not apply the gain' % t, K=K, **inp)
    need(unchanged(s) is None, 'simulation modified its inputs', **inp)
    return inp


@case('C14', 2)
def simulate_pwa(rng, k):
    nx, nu, sys, doms = rpwa(rng)
    if rng.random() < .3:
        # overlap and gaps
        i = int(rng.integers(len(doms)))
        b = doms[i][1].copy()
        b[0] += float(rng.choice([-2., 2., 4.]))
        doms[i] = (doms[i][0], b)
    S = mkpwa(sys, doms)
    N = int(rng.integers(0, 5))
    x0 = ints(rng, -4, 4, nx)
    u = [ints(rng, -2, 2, nu) for _ in range(N)]
    if rng.random() < .3:
        # slightly beyond the boundaries, by more than the tolerance of the membership test
        x0 = x0 + float(rng.choice([-1., 1.])) * float(rng.choice([1e-5, 2e-4, 4e-3]))
    inp = dict(systems=sys, domains=doms, x0=x0, u=u)

    def modes(x, v):
        r = []
        for i, (A, b) in enumerate(doms):
            w = float(np.max(A.dot(np.concatenate((x, v))) - b))
            if 1e-9 < w < 1e-6:
                raise Skip()
            if w <= 1e-9:
                r.append(i)
        return r
    x, seq, ok = [x0], [], True
    for t in range(N):
        m = modes(x[-1], u[t])
        if not m:
            ok = False
            break
        A, B, c = sys[m[0]]
        x.append(A.dot(x[-1]) + B.dot(u[t]) + c)
        seq.append(m[0])
    s = snap(x0, u, S.affine_systems, S.domains)
    if not ok:
        need(raises(ValueError, S.simulate, x0, u), 'a step outside all domains does not raise ValueError', **inp)
        need(S.get_mode(x[-1], u[len(seq)]) is None, 'get_mode reports a mode outside all domains', **inp)
    else:
        xs, ms = S.simulate(x0, u)
        need(len(xs) == N + 1 and len(ms) == N, 'wrong lengths of trajectory and mode sequence', **inp)
        need([int(i) for i in ms] == seq, 'reported modes %s, lowest containing domains are %s' % (list(ms), seq), **inp)
        need(all(close(a, b) for a, b in zip(xs, x)), 'the trajectory does not follow the selected modes', **inp)
    need(unchanged(s) is None, 'simulation modified its inputs', **inp)
    if N:
        m = modes(x0, u[0])
        need(S.get_mode(x0, u[0]) == (m[0] if m else None), 'get_mode is not the lowest-numbered containing domain', **inp)
    return inp


# ------------------------------------------------------------------ C15
@case('C15', 2)
def condense(rng, k):
    nx, nu, sys, doms = rpwa(rng)
    S = mkpwa(sys, doms)
    N = int(rng.integers(1, 7)) if rng.random() < .85 else int(rng.integers(7, 15))
    seq = [int(i) for i in rng.integers(0, len(sys), N)]
    x0, u = ints(rng, -2, 2, nx), [ints(rng, -2, 2, nu) for _ in range(N)]
    inp = dict(systems=sys, sequence=seq, x0=x0, u=u)

    def roll(seq, sy):
        x = [x0]
        for t, m in enumerate(seq):
            A, B, c = sy[m]
            x.append(A.dot(x[-1]) + B.dot(u[t]) + c)
        return np.concatenate(x)

    def chk(M, truth, what):
        need(np.shape(M[0]) == (nx * (N + 1), nx) and np.shape(M[1]) == (nx * (N + 1), nu * N), 'condensed matrices of %s have wrong shapes' % what, **inp)
        v = M[0].dot(x0) + M[1].dot(np.concatenate(u)) + (M[2] if len(M) > 2 else 0.)
        need(close(v, truth, 1e-8), 'condensed dynamics of %s differ from stepping' % what, **inp)
    s = snap(S.affine_systems, S.domains)
    chk(S.condense(seq), roll(seq, sys), 'the piecewise-affine system')
    chk(condense_pwa_system(S.affine_systems, seq), roll(seq, sys), 'condense_pwa_system')
    chk(S.affine_systems[0].condense(N), roll([0] * N, sys), 'the affine system')
    A, B, c = sys[0]
    r = LinearSystem(A, B).condense(N)
    chk(r, roll([0] * N, [(A, B, 0. * c)]), 'the linear system')
    L = [ints(rng, -2, 2, nx, nx) for _ in range(int(rng.integers(1, 5)))]
    M = np.eye(nx)
    for X in L:
        M = M.dot(X)
    need(close(productory(list(L)), M), 'productory is not the ordered product', matrices=L)
    need(unchanged(s) is None, 'condensing modified the system', **inp)
    return inp


# ------------------------------------------------------------------ C16
def _expm(M):
    """Own exponential by scaling, Taylor series and squaring."""
    n = max(0, int(np.ceil(np.log2(max(1e-16, np.abs(M).sum())))) + 4)
    X = M / 2. ** n
    E, T = np.eye(M.shape[0]), np.eye(M.shape[0])
    for i in range(1, 25):
        T = T.dot(X) / i
        E = E + T
    for _ in range(n):
        E = E.dot(E)
    return E


@case('C16', 2)
def discretize(rng, k):
    nx, nu = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    A, B, c = rng.normal(size=(nx, nx)), rng.normal(size=(nx, nu)), rng.normal(size=nx)
    if rng.random() < .4:
        A = np.triu(ints(rng, -1, 1, nx, nx), 1)
    h = float(rng.choice([0., .01, .1, .5, 1.]))
    inp = dict(A=A, B=B, c=c, h=h)
    s = snap(A, B, c)
    eu = (np.eye(nx) + h * A, h * B, h * c)
    G = np.zeros((2 * nx, 2 * nx))
    G[:nx, :nx] = A
    G[:nx, nx:] = np.eye(nx)
    E = _expm(G * h)
    zo = (E[:nx, :nx], E[:nx, nx:].dot(B), E[:nx, nx:].dot(c))
    for truth, fun, nm in ((eu, explicit_euler, 'explicit_euler'), (zo, zero_order_hold, 'zero_order_hold')):
        r = fun(A, B, c, h)
        need(all(close(x, y, 1e-7) for x, y in zip(r, truth)), nm + ' differs from its definition', **inp)
        S = AffineSystem.from_continuous(A, B, c, h, nm)
        need(all(close(x, y, 1e-7) for x, y in zip((S.A, S.B, S.c), truth)), 'AffineSystem.from_continuous(%s) differs from its definition' % nm, **inp)
        L = LinearSystem.from_continuous(A, B, h, nm)
        need(close(L.A, truth[0], 1e-7) and close(L.B, truth[1], 1e-7), 'LinearSystem.from_continuous(%s) differs from its definition' % nm, **inp)
        need((S.nx, S.nu, L.nx, L.nu) == (nx, nu, nx, nu), 'wrong system size', **inp)
        need(raises(ValueError, fun, A, B, c, -.1), nm + ' accepts a negative step', **inp)
        need(raises(ValueError, fun, A, B, np.ones(nx + 1), h), nm + ' accepts an incoherent offset', **inp)
    S = AffineSystem.from_continuous(A, B, c, h)
    need(close(S.A, zo[0], 1e-7), 'default method is not zero-order hold', **inp)
    bad = [
        lambda: LinearSystem(np.ones((nx, nx + 1)), B), lambda: LinearSystem(A, np.ones((nx + 1, nu))),
        lambda: AffineSystem(np.ones((nx, nx + 1)), B, c), lambda: AffineSystem(A, np.ones((nx + 1, nu)), c),
        lambda: AffineSystem(A, B, np.ones(nx + 1)), lambda: AffineSystem(A, B, np.ones((nx, 1))),
        lambda: LinearSystem.from_continuous(A, B, -1.), lambda: AffineSystem.from_continuous(A, B, c, -1.),
        lambda: LinearSystem.from_continuous(A, B, .1, 'tustin'), lambda: AffineSystem.from_continuous(A, B, c, .1, 'tustin'),
        lambda: LinearSystem.from_continuous(A, np.ones((nx + 1, nu)), .1), lambda: AffineSystem.from_continuous(A, B, np.ones(nx + 1), .1)]
    for i, f in enumerate(bad):
        need(raises(ValueError, f), 'incoherent input %d accepted' % i, **inp)
    need(unchanged(s) is None, 'discretization modified its inputs', **inp)
    return inp


@case('C16', .15)
def symbolic(rng, k):
    import sympy as sp
    nx, nu = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    A, B, c = rsys(rng, nx, nu)
    x = sp.Matrix([sp.Symbol('x%d' % i) for i in range(nx)])
    u = sp.Matrix([sp.Symbol('u%d' % i) for i in range(nu)])
    h = .1
    inp = dict(A=A, B=B, c=c)

    def ex(c):
        return sp.Matrix([sum(A[i, j] * x[j] for j in range(nx)) + sum(B[i, j] * u[j] for j in range(nu)) + c[i] for i in range(nx)])
    S = AffineSystem.from_symbolic(x, u, ex(c))
    need(close(S.A, A) and close(S.B, B) and close(S.c, c), 'AffineSystem.from_symbolic does not reproduce the expression', **inp)
    L = LinearSystem.from_symbolic(x, u, ex(0 * c))
    need(close(L.A, A) and close(L.B, B), 'LinearSystem.from_symbolic does not reproduce the expression', **inp)
    for m, f in (('zero_order_hold', zero_order_hold), ('explicit_euler', explicit_euler)):
        r = f(A, B, c, h)
        S = AffineSystem.from_symbolic_continuous(x, u, ex(c), h, m)
        need(all(close(p, q) for p, q in zip((S.A, S.B, S.c), r)), 'AffineSystem.from_symbolic_continuous differs', method=m, **inp)
        L = LinearSystem.from_symbolic_continuous(x, u, ex(0 * c), h, m)
        need(close(L.A, r[0]) and close(L.B, r[1]), 'LinearSystem.from_symbolic_continuous differs', method=m, **inp)
    if np.any(c):
        need(raises(ValueError, LinearSystem.from_symbolic, x, u, ex(c)), 'LinearSystem.from_symbolic accepts an offset', **inp)
        need(raises(ValueError, LinearSystem.from_symbolic_continuous, x, u, ex(c), h), 'LinearSystem.from_symbolic_continuous accepts an offset', **inp)


# ------------------------------------------------------------------ C17
@case('C17', 1.5)
def riccati(rng, k):
    nx, nu = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    if rng.random() < .4:
        # block structure: rank decides at a high power or never
        A = np.diag(np.ones(nx - 1), 1) + np.diag(rng.choice([0., .5, 1.], nx))
        B = np.zeros((nx, nu))
        B[int(rng.integers(nx)), 0] = 1.
    else:
        A, B = rng.normal(size=(nx, nx)), rng.normal(size=(nx, nu))
    weak = rng.random() < .15
    ctr, M = [], B
    for _ in range(nx):
        ctr.append(M)
        M = A.dot(M)
    sv = np.linalg.svd(np.hstack(ctr))[1]
    sv = np.concatenate((sv, np.zeros(max(0, nx - sv.size))))
    if 1e-9 < sv.min() < 1e-3:
        raise Skip()
    truth = bool(sv.min() > 1e-3)
    if weak:
        # weak actuation: the answer does not depend on the scale of the inputs
        S = LinearSystem(A, B * 2. ** -16)
        need(bool(S.controllable) == truth, 'controllable answers %s, should be %s' % (S.controllable, truth), A=A, B=B * 2. ** -16)
    S = LinearSystem(A, B)
    Q, R = spd(rng, nx), spd(rng, nu)
    inp = dict(A=A, B=B, Q=Q, R=R)
    s = snap(A, B, Q, R)
    need(bool(S.controllable) == truth, 'controllable answers %s, should be %s' % (S.controllable, truth), **inp)
    need(bool(S.controllable) == truth, 'a second query differs', **inp)
    if not truth:
        need(raises(ValueError, S.solve_dare, Q, R), 'an uncontrollable system is not refused', **inp)
        return
    P, K = S.solve_dare(Q, R)
    need(unchanged(s) is None, 'solve_dare modified its inputs', **inp)
    sc = 1. + np.abs(P).max()
    need(np.all(np.abs(Q + K.T.dot(R).dot(K) + (A + B.dot(K)).T.dot(P).dot(A + B.dot(K)) - P) < 1e-6 * sc), 'the cost-to-go matrix is not the closed-loop cost of the gain', P=P, K=K, **inp)
    need(np.all(np.abs(R.dot(K) + B.T.dot(P).dot(A + B.dot(K))) < 1e-6 * sc), 'the gain does not minimize the one-step cost-to-go', P=P, K=K, **inp)
    if np.max(np.abs(np.linalg.eigvals(A + B.dot(K)))) < .97:
        x = rng.normal(size=nx)
        v, y = 0., x
        for _ in range(1500):
            v += y.dot(Q).dot(y) + K.dot(y).dot(R).dot(K.dot(y))
            y = (A + B.dot(K)).dot(y)
        need(abs(v - x.dot(P).dot(x)) < 1e-5 * (1 + v), 'the closed-loop cost is not the quadratic form', P=P, K=K, **inp)
    return inp


# ------------------------------------------------------------------ C18
def _traj(A, b_A, b, x, T=250):
    """Largest violation of the constraints along the trajectory."""
    w, y = -np.inf, x
    for _ in range(T):
        w = max(w, float(np.max(b_A.dot(y) - b)))
        y = A.dot(y)
    return w


def _check_mcais(O, A, XA, Xb, rng, inp):
    OA, Ob = np.asarray(O.A, float), np.asarray(O.b, float)
    need(O.C.shape[0] == 0, 'the invariant set has equalities', **inp)
    for i in range(len(Xb)):
        st, _, v = lp(-XA[i], OA, Ob)
        need(st == 'opt' and -v - Xb[i] < 1e-5, 'the invariant set leaves the constraint set', **inp)
    for i in range(len(Ob)):
        st, _, v = lp(-OA[i].dot(A), OA, Ob)
        need(st == 'opt' and -v - Ob[i] < 1e-5 * (1 + abs(Ob[i])), 'the set is not mapped into itself', **inp)
    n = A.shape[0]
    for t in range(30):
        st, x, v = lp(rng.normal(size=n), XA, Xb)
        x = x * float(rng.choice([1., .99, .8, .6, .4]))
        w = _traj(A, XA, Xb, x)
        ins = float(np.max(OA.dot(x) - Ob))
        if w < -1e-6:
            need(ins < 1e-5, 'a state whose whole trajectory is admissible is outside the set', x=x, **inp)
        elif w > 1e-4:
            need(ins > -1e-5, 'a state that leaves the constraints is in the set', x=x, **inp)


@case('C18', .8)
def invariant_set(rng, k):
    n = int(rng.choice([1, 2, 3, 3, 4]))
    A = stable(rng, n)
    if rng.random() < .4 and n > 1:
        th = rng.uniform(.1, 1.5)
        A = np.eye(n) * .9
        A[:2, :2] = rng.uniform(.7, .95) * np.array([[np.cos(th), -np.sin(th) * 2.], [np.sin(th) / 2., np.cos(th)]])
    XA, Xb = rpolytope(rng, n)
    if n == 2 and rng.random() < .08:
        # slow: the constraints become active after many steps
        th = rng.uniform(.05, .07)
        A = .985 * np.array([[np.cos(th), -np.sin(th) * 1.5], [np.sin(th) / 1.5, np.cos(th)]])
        XA, Xb = np.vstack((np.eye(2), -np.eye(2))), ints(rng, 1, 2, 4)
    X = Polyhedron(XA, Xb)
    if rng.random() < .3:
        X.bounded
    inp = dict(A=A, X_A=XA, X_b=Xb)
    s = snap(A, X)
    O = mcais(A, X)
    need(unchanged(s) is None, 'mcais modified the given set or dynamics', **inp)
    _check_mcais(O, A, XA, Xb, rng, inp)
    O.add_inequality(np.ones((1, n)), np.ones(1))
    need(unchanged(s) is None, 'changing the result changes the given set', **inp)
    return inp


@case('C18', .6)
def invariant_set_with_input(rng, k):
    nx, nu = int(rng.choice([1, 2, 2, 3, 3, 4])), int(rng.integers(1, 4))
    A, B = rng.normal(size=(nx, nx)), rng.normal(size=(nx, nu))
    from scipy.linalg import solve_discrete_are
    try:
        P = solve_discrete_are(A, B, np.eye(nx), np.eye(nu))
    except Exception:
        raise Skip()
    K = -np.linalg.solve(np.eye(nu) + B.T.dot(P).dot(B), B.T.dot(P).dot(A))
    Ac = A + B.dot(K)
    if np.max(np.abs(np.linalg.eigvals(Ac))) > .93:
        raise Skip()
    DA, Db = rpolytope(rng, nx + nu)
    D = Polyhedron(DA, Db)
    inp = dict(A=A, B=B, K=K, D_A=DA, D_b=Db)
    s = snap(A, B, K, D)
    O = LinearSystem(A, B).mcais(K, D)
    need(unchanged(s) is None, 'mcais modified its inputs', **inp)
    _check_mcais(O, Ac, DA[:, :nx] + DA[:, nx:].dot(K), Db, rng, inp)
    return inp


@case('C18', .3)
def refused_invariant_set(rng, k):
    n = int(rng.integers(1, 4))
    A = stable(rng, n)
    XA, Xb = rpolytope(rng, n)
    need(raises(ValueError, mcais, A / np.max(np.abs(np.linalg.eigvals(A))) * float(rng.choice([1.005, 1.03, 1.2])), Polyhedron(XA, Xb)), 'unstable dynamics accepted', A=A)
    sh = np.zeros(n)
    sh[0] = 20.
    need(raises(ValueError, mcais, A, Polyhedron(XA, Xb + XA.dot(sh))), 'a set without the origin is accepted', A=A, X_A=XA, X_b=Xb)
    E = np.eye(n)
    U = Polyhedron(np.vstack((E[:1], -E)), np.ones(n + 1)) if n > 1 else Polyhedron(E[:1], np.ones(1))
    need(raises(ValueError, mcais, A, U), 'an unbounded set is accepted', A=A)


# ------------------------------------------------------------------ C19
@case('C19', 1)
def construct(rng, k):
    nx, nu, sys, doms = rpwa(rng, int(rng.integers(1, 5)))
    nm = len(sys)
    systems = [AffineSystem(*s) if rng.random() < .6 else LinearSystem(s[0], s[1]) for s in sys]
    lin = [isinstance(s, LinearSystem) for s in systems]
    D = [Polyhedron(*d) for d in doms]
    inp = dict(systems=sys, linear=lin, domains=doms)
    S = PieceWiseAffineSystem(list(systems), list(D))
    need((S.nx, S.nu, S.nm) == (nx, nu, nm) and len(S.affine_systems) == nm and len(S.domains) == nm, 'wrong sizes', **inp)
    for i, T in enumerate(S.affine_systems):
        need(close(T.A, sys[i][0]) and close(T.B, sys[i][1]) and close(T.c, 0 * sys[i][2] if lin[i] else sys[i][2]), 'mode %d is not the given system' % i, **inp)
        need(close(S.domains[i].A, doms[i][0]) and close(S.domains[i].b, doms[i][1]), 'domain %d is not the given one' % i, **inp)
    j = int(rng.integers(nm))

    def rep(l, i, v):
        l = list(l)
        l[i] = v
        return l
    need(raises(ValueError, PieceWiseAffineSystem, list(systems), D + [D[0]]), 'more domains than modes accepted', **inp)
    if nm > 1:
        need(raises(ValueError, PieceWiseAffineSystem, list(systems), D[:-1]), 'fewer domains than modes accepted', **inp)
        A, B, c = rsys(rng, nx + 1, nu)
        need(raises(ValueError, PieceWiseAffineSystem, rep(systems, j, AffineSystem(A, B, c)), list(D)), 'modes of different state size accepted', **inp)
        A, B, c = rsys(rng, nx, nu + 1)
        need(raises(ValueError, PieceWiseAffineSystem, rep(systems, j, AffineSystem(A, B, c)), list(D)), 'modes of different input size accepted', **inp)
        bad = Polyhedron(np.eye(nx + nu + 1), np.ones(nx + nu + 1))
        need(raises(ValueError, PieceWiseAffineSystem, list(systems), rep(D, j, bad)), 'domains of different size accepted', **inp)
    bad = [Polyhedron(np.eye(nx + nu + 1), np.ones(nx + nu + 1)) for _ in range(nm)]
    need(raises(ValueError, PieceWiseAffineSystem, list(systems), bad), 'domains of wrong size accepted', **inp)
    bad = [Polyhedron(np.eye(nx), np.ones(nx)) for _ in range(nm)]
    need(raises(ValueError, PieceWiseAffineSystem, list(systems), bad), 'domains without inputs accepted', **inp)
    return inp


@case('C19', 1)
def well_posed(rng, k):
    nx, nu = int(rng.integers(1, 3)), 1
    nm = int(rng.integers(1, 5)) if rng.random() < .8 else int(rng.integers(5, 9))
    n = nx + nu
    sys = [rsys(rng, nx, nu) for _ in range(nm)]
    cuts = np.sort(rng.choice(np.arange(-6, 7), nm + 1, replace=False)).astype(float)
    unb = rng.random() < .4
    doms = []
    for i in range(nm):
        lo, hi = -3. * np.ones(n), 3. * np.ones(n)
        lo[0], hi[0] = cuts[i], cuts[i + 1]
        A, b = np.vstack((np.eye(n), -np.eye(n))), np.concatenate((hi, -lo))
        if unb:
            A, b = A[[0, n]], b[[0, n]]
            if i == nm - 1 and rng.random() < .5:
                A, b = A[1:], b[1:]
        doms.append([A, b])
    if nm > 1 and rng.random() < .5:
        i = int(rng.integers(nm))
        doms[i][1] = doms[i][1].copy()
        doms[i][1][0] += float(rng.choice([.5, 2., -.5]))
    doms = [doms[i] for i in rng.permutation(nm)]
    truth = True
    for i in range(nm):
        for j in range(i):
            st, r, _ = chebyshev_oracle(np.vstack((doms[i][0], doms[j][0])), np.concatenate((doms[i][1], doms[j][1])))
            if st == 'opt' and 1e-9 < r < 1e-3:
                raise Skip()
            if st == 'unbounded' or r > 1e-5:
                truth = False
    S = mkpwa(sys, doms)
    s = snap(S.domains)
    inp = dict(domains=doms)
    need(bool(S.is_well_posed()) == truth, 'is_well_posed answers %s, should be %s' % (not truth, truth), **inp)
    need(unchanged(s) is None, 'is_well_posed modified the domains', **inp)
    return inp


@case('C19', .4)
def well_posed_tolerance(rng, k):
    n = 2
    ov = float(rng.choice([.1, .5]))
    A = np.vstack((np.eye(n), -np.eye(n)))
    d1 = (A, np.array([1. + ov, 3., 3., 3.]))
    d2 = (A, np.array([4., 3., -1., 3.]))
    S = mkpwa([rsys(rng, 1, 1), rsys(rng, 1, 1)], [d1, d2])
    for tol in (.01, .04, .1, .3):
        if abs(tol - ov / 2.) < 1e-3:
            continue
        need(bool(S.is_well_posed(tol)) == (ov / 2. <= tol), 'is_well_posed ignores its tolerance', overlap=ov, tol=tol)
