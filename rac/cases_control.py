"""Contracts of pympc.control, checked at run time (C20, C21 controllers, C22)."""
import itertools
import numpy as np
from common import *
from pympc.geometry.polyhedron import Polyhedron
from pympc.dynamics.discrete_time_systems import LinearSystem, AffineSystem, PieceWiseAffineSystem
from pympc.control.controllers import ModelPredictiveController, HybridModelPredictiveController, condense_optimal_control_problem


def _mk(rng, nx=None, nu=None, N=None):
    nx = int(rng.integers(1, 4)) if nx is None else nx
    nu = int(rng.integers(1, 3)) if nu is None else nu
    N = int(rng.integers(1, 5)) if N is None else N
    A, B = np.eye(nx) + .4 * rng.normal(size=(nx, nx)), rng.normal(size=(nx, nu))
    Q, R, P = spd(rng, nx), spd(rng, nu), spd(rng, nx, 2.)
    D, X = rpolytope(rng, nx + nu), rpolytope(rng, nx)
    return nx, nu, N, A, B, Q, R, P, D, X


def _rollout(mats, x, u):
    xs = [x]
    for (A, B, c), v in zip(mats, u):
        xs.append(A.dot(xs[-1]) + B.dot(v) + c)
    return xs


def _ocp(mats, Q, R, P, doms, X, x, u):
    """(cost, largest constraint violation) of an input sequence."""
    xs = _rollout(mats, x, u)
    cost = .5 * sum(a.dot(Q).dot(a) + v.dot(R).dot(v) for a, v in zip(xs, u)) + .5 * xs[-1].dot(P).dot(xs[-1])
    w = max([float(np.max(DA.dot(np.concatenate((a, v))) - Db)) for (DA, Db), a, v in zip(doms, xs, u)] + [float(np.max(X[0].dot(xs[-1]) - X[1]))])
    return cost, w, xs


def _lift(mats, Q, R, P, doms, X, x, nu):
    """The optimal control problem at x as a QP in the inputs, built here by columns of simulations."""
    N = len(mats)
    z = np.zeros(N * nu)

    def traj(u):
        return _rollout(mats, x, [u[i * nu:(i + 1) * nu] for i in range(N)])
    base = traj(z)
    cols = []
    for i in range(N * nu):
        e = z.copy()
        e[i] = 1.
        cols.append([a - b for a, b in zip(traj(e), base)])
    G = [np.array([cols[i][t] for i in range(N * nu)]).T for t in range(N + 1)]
    H, f, g = np.zeros((N * nu, N * nu)), z.copy(), 0.
    for t in range(N + 1):
        W = Q if t < N else P
        H += G[t].T.dot(W).dot(G[t])
        f += G[t].T.dot(W).dot(base[t])
        g += .5 * base[t].dot(W).dot(base[t])
    Ar, br = [], []
    nx = x.size
    for t in range(N):
        H[t * nu:(t + 1) * nu, t * nu:(t + 1) * nu] += R
        S = np.zeros((nu, N * nu))
        S[:, t * nu:(t + 1) * nu] = np.eye(nu)
        DA, Db = doms[t]
        Ar.append(DA[:, :nx].dot(G[t]) + DA[:, nx:].dot(S))
        br.append(Db - DA[:, :nx].dot(base[t]))
    Ar.append(X[0].dot(G[N]))
    br.append(X[1] - X[0].dot(base[N]))
    return H, f, g, np.vstack(Ar), np.concatenate(br)


def _check_mpqp(q, mats, Q, R, P, doms, X, rng, nx, nu, inp):
    N = len(mats)
    for _ in range(6):
        x = rng.normal(size=nx) * float(rng.choice([.3, 1., 2.]))
        u = [rng.normal(size=nu) * float(rng.choice([.1, .5, 2.])) for _ in range(N)]
        U = np.concatenate(u)
        cost, w, _ = _ocp(mats, Q, R, P, doms, X, x, u)
        v = .5 * U.dot(q.H['uu']).dot(U) + U.dot(q.H['ux']).dot(x) + .5 * x.dot(q.H['xx']).dot(x) + q.f['u'].dot(U) + q.f['x'].dot(x) + q.g
        need(abs(v - cost) < 1e-7 * (1 + abs(cost)), 'the condensed cost %s is not the trajectory cost %s' % (v, cost), x=x, u=u, **inp)
        r = q.A['u'].dot(U) + q.A['x'].dot(x) - q.b
        s = float(np.max(r))
        if abs(w) > 1e-7:
            need((s <= 1e-9) == (w <= 0.), 'condensed constraints and trajectory constraints disagree', x=x, u=u, violation=w, **inp)


@case('C20', 1.2)
def condensed_problem(rng, k):
    nx, nu, N, A, B, Q, R, P, D, X = _mk(rng)
    S = LinearSystem(A, B)
    DP, XP = Polyhedron(*D), Polyhedron(*X)
    inp = dict(A=A, B=B, N=N, Q=Q, R=R, P=P, D=list(D), X_N=list(X))
    s = snap(A, B, Q, R, P, DP, XP)
    c = ModelPredictiveController(S, N, Q, R, P, DP, XP)
    _check_mpqp(c.mpqp, [(A, B, np.zeros(nx))] * N, Q, R, P, [D] * N, X, rng, nx, nu, inp)
    for _ in range(3):
        x = rng.normal(size=nx) * float(rng.choice([.2, .7, 2., 8.]))
        H, f, g, Ar, br = _lift([(A, B, np.zeros(nx))] * N, Q, R, P, [D] * N, X, x, nu)
        sl = slack(Ar, br)
        if abs(sl) < 1e-3:
            continue
        u, V = c.feedforward(x)
        fb = c.feedback(x)
        if sl < 0:
            need(u is None and V is None and fb is None, 'inputs are returned for an infeasible state', x=x, **inp)
            continue
        need(u is not None and V is not None, 'no inputs for a feasible state', x=x, **inp)
        need(len(u) == N and all(np.shape(v) == (nu,) for v in u), 'the feedforward is not one input per step', x=x, **inp)
        o = qp(H, f, Ar, br)
        need(close(np.concatenate(u), o[0], 1e-4), 'the feedforward is not the minimizing sequence', x=x, u=u, expected=o[0], **inp)
        need(abs(V - o[1] - g) < 1e-4 * (1 + abs(V)), 'the reported cost %s is not the optimal cost %s' % (V, o[1] + g), x=x, **inp)
        need(close(fb, u[0], 1e-6), 'the feedback is not the first input', x=x, **inp)
    need(unchanged(s) is None, 'the controller modified its inputs', **inp)
    return inp


def _pwa(rng, nx, nu, nm):
    mats, doms = [], []
    for i in range(nm):
        A, B, c = np.eye(nx) + .4 * rng.normal(size=(nx, nx)), rng.normal(size=(nx, nu)), .3 * rng.normal(size=nx)
        mats.append((A, B, c))
        DA, Db = rpolytope(rng, nx + nu, int(rng.integers(0, 2)))
        doms.append((DA, Db))
    return mats, doms


@case('C20', 1)
def fixed_mode_sequence(rng, k):
    nx, nu, N, A, B, Q, R, P, D, X = _mk(rng)
    mats, doms = _pwa(rng, nx, nu, int(rng.integers(1, 4)))
    S = PieceWiseAffineSystem([AffineSystem(*m) for m in mats], [Polyhedron(*d) for d in doms])
    seq = [int(i) for i in rng.integers(0, len(mats), N)]
    inp = dict(systems=mats, domains=doms, sequence=seq, Q=Q, R=R, P=P, X_N=list(X))
    XP = Polyhedron(*X)
    s = snap(Q, R, P, XP, S.affine_systems, S.domains)
    q = condense_optimal_control_problem(S, Q, R, P, XP, seq)
    need(unchanged(s) is None, 'condensing modified its inputs', **inp)
    _check_mpqp(q, [mats[i] for i in seq], Q, R, P, [doms[i] for i in seq], X, rng, nx, nu, inp)
    x = rng.normal(size=nx) * .5
    H, f, g, Ar, br = _lift([mats[i] for i in seq], Q, R, P, [doms[i] for i in seq], X, x, nu)
    sl = slack(Ar, br)
    if abs(sl) > 1e-3:
        sol = q.solve(x)
        need((sol['min'] is None) == (sl < 0), 'feasibility of the fixed mode sequence is wrong', x=x, **inp)
        if sl > 0:
            o = qp(H, f, Ar, br)
            need(abs(sol['min'] - o[1] - g) < 1e-4 * (1 + abs(sol['min'])) and close(sol['argmin'], o[0], 1e-4), 'the fixed mode sequence is not solved to optimality', x=x, **inp)
    return inp


@case('C21', .15)
def explicit_controller(rng, k):
    nx, nu, N, A, B, Q, R, P, D, X = _mk(rng, int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 3)))
    D = rpolytope(rng, nx + nu, 0)
    X = rpolytope(rng, nx, 0)
    c = ModelPredictiveController(LinearSystem(A, B), N, Q, R, P, Polyhedron(*D), Polyhedron(*X))
    inp = dict(A=A, B=B, N=N, Q=Q, R=R, P=P, D=list(D), X_N=list(X))
    need(raises(ValueError, c.feedforward_explicit, np.zeros(nx)) and raises(ValueError, c.feedback_explicit, np.zeros(nx)), 'the explicit controller answers before its solution is stored', **inp)
    try:
        c.store_explicit_solution()
    except (TypeError, ValueError, np.linalg.LinAlgError):
        raise Skip()
    for _ in range(8):
        x = rng.normal(size=nx)
        u, V = c.feedforward_explicit(x)
        fb = c.feedback_explicit(x)
        inside = any(cr.contains(x) for cr in c.explicit_solution.critical_regions)
        if not inside:
            need(u is None and V is None and fb is None, 'the explicit controller answers outside all regions', x=x, **inp)
            continue
        need(u is not None and len(u) == N and all(np.shape(v) == (nu,) for v in u), 'wrong explicit feedforward', x=x, **inp)
        H, f, g, Ar, br = _lift([(A, B, np.zeros(nx))] * N, Q, R, P, [D] * N, X, x, nu)
        if slack(Ar, br) < 1e-3:
            continue
        o = qp(H, f, Ar, br)
        need(close(np.concatenate(u), o[0], 1e-3), 'the explicit controller is not optimal', x=x, u=u, expected=o[0], **inp)
        need(abs(V - o[1] - g) < 1e-3 * (1 + abs(V)), 'the explicit cost is not optimal', x=x, V=V, expected=o[1] + g, **inp)
        need(close(fb, u[0]), 'the explicit feedback is not the first input', x=x, **inp)
    return inp


# ------------------------------------------------------------------ C22
def _hybrid(rng, eq=False):
    nx, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    nm = int(rng.integers(1, 4))
    N = int(rng.integers(1, 4)) if nm < 3 else int(rng.integers(1, 3))
    mats, doms = [], []
    cuts = np.concatenate(([-4.], np.sort(rng.choice(np.arange(-2, 3), nm - 1, replace=False)), [4.]))
    for i in range(nm):
        A, B, c = np.eye(nx) + .3 * rng.normal(size=(nx, nx)), rng.normal(size=(nx, nu)), .3 * rng.normal(size=nx)
        mats.append((A, B, c))
        lo, hi = -ints(rng, 3, 4, nx + nu), ints(rng, 3, 4, nx + nu)
        lo[0], hi[0] = cuts[i], cuts[i + 1]
        DA, Db = np.vstack((np.eye(nx + nu), -np.eye(nx + nu))), np.concatenate((hi, -lo))
        if rng.random() < .5:
            e = rconstraints(rng, nx + nu, 1)
            DA, Db = np.vstack((DA, e)), np.concatenate((Db, e.dot((lo + hi) / 2.) + ints(rng, 1, 3, 1)))
        p = rng.permutation(len(Db))
        doms.append((DA[p], Db[p]))
    o = rng.permutation(nm)
    doms = [doms[i] for i in o]
    Q, R, P = spd(rng, nx), spd(rng, nu), spd(rng, nx, 2.)
    X = rbox(rng, nx)
    return nx, nu, nm, N, mats, doms, Q, R, P, X


@case('C22', .6)
def hybrid_encoding(rng, k):
    """The MIQP matrices at trajectories and non-trajectories, without calling the solver."""
    nx, nu, nm, N, mats, doms, Q, R, P, X = _hybrid(rng)
    S = PieceWiseAffineSystem([AffineSystem(*m) for m in mats], [Polyhedron(*d) for d in doms])
    XP = Polyhedron(*X)
    inp = dict(systems=mats, domains=doms, N=N, Q=Q, R=R, P=P, X_N=list(X))
    s = snap(Q, R, P, XP, S.affine_systems, S.domains)
    c = HybridModelPredictiveController(S, N, Q, R, P, XP)
    need(unchanged(s) is None, 'the controller modified its inputs', **inp)
    q = c.mpmiqp
    for _ in range(10):
        seq = [int(i) for i in rng.integers(0, nm, N)]
        # try to produce an admissible trajectory
        x = rng.uniform(-2, 2, nx)
        u, y = [], x
        for t in range(N):
            best = None
            for _ in range(15):
                v = rng.uniform(-2, 2, nu)
                ms = [i for i in range(nm) if np.max(doms[i][0].dot(np.concatenate((y, v))) - doms[i][1]) < -1e-3]
                if ms:
                    best = (v, ms[int(rng.integers(len(ms)))])
                    A, B, cc = mats[best[1]]
                    if np.max(np.abs(A.dot(y) + B.dot(v) + cc)) < 2.5:
                        break
            if best is None:
                v, m = rng.uniform(-1, 1, nu), seq[t]
            else:
                v, m = best
                if rng.random() < .08:
                    m = int(rng.integers(nm))
            seq[t] = m
            A, B, cc = mats[m]
            u.append(v)
            y = A.dot(y) + B.dot(v) + cc
        M = [mats[i] for i in seq]
        cost, w, xs = _ocp(M, Q, R, P, [doms[i] for i in seq], X, x, u)
        if abs(w) < 1e-6:
            continue
        z, d = np.zeros(nx * nm * N), np.zeros(nm * N)
        for t, m in enumerate(seq):
            z[nx * nm * t + nx * m: nx * nm * t + nx * (m + 1)] = xs[t + 1]
            d[nm * t + m] = 1.
        U = np.concatenate(u)
        r = float(np.max(q.A['u'].dot(U) + q.A['z'].dot(z) + q.A['d'].dot(d) + q.A['x'].dot(x) - q.b))
        need((r < 1e-5) == (w < 0), 'the MIQP and the trajectory constraints disagree (violation %g, MIQP residual %g)' % (w, r), x=x, u=u, modes=seq, **inp)
        v = .5 * U.dot(q.H['uu']).dot(U) + .5 * z.dot(q.H['zz']).dot(z) + z.dot(q.H['zx']).dot(x) + .5 * x.dot(q.H['xx']).dot(x)
        need(abs(v - cost) < 1e-7 * (1 + abs(cost)), 'the MIQP cost %s is not the trajectory cost %s' % (v, cost), x=x, u=u, modes=seq, **inp)
        # for these inputs and modes no other value of the auxiliary states is allowed
        if w < 0:
            i = int(rng.integers(z.size))
            for e in (.1, -.1):
                z2 = z.copy()
                z2[i] += e
                r2 = float(np.max(q.A['u'].dot(U) + q.A['z'].dot(z2) + q.A['d'].dot(d) + q.A['x'].dot(x) - q.b))
                need(r2 > 1e-6, 'the MIQP accepts a state off the dynamics of the selected mode', x=x, u=u, modes=seq, entry=i, shift=e, **inp)
            # exactly one mode per step
            for j in range(nm * N):
                d2 = d.copy()
                d2[j] = 1. - d2[j]
                r2 = float(np.max(q.A['u'].dot(U) + q.A['z'].dot(z) + q.A['d'].dot(d2) + q.A['x'].dot(x) - q.b))
                need(r2 > 1e-6, 'the MIQP accepts a step with no or two modes', x=x, u=u, modes=seq, **inp)
    return inp


@case('C22', .35)
def hybrid_solution(rng, k):
    nx, nu, nm, N, mats, doms, Q, R, P, X = _hybrid(rng)
    S = PieceWiseAffineSystem([AffineSystem(*m) for m in mats], [Polyhedron(*d) for d in doms])
    c = HybridModelPredictiveController(S, N, Q, R, P, Polyhedron(*X))
    x = rng.uniform(-2., 2., nx) * float(rng.choice([.5, 1., 2.5]))
    inp = dict(systems=mats, domains=doms, N=N, Q=Q, R=R, P=P, X_N=list(X), x=x)
    best = None
    for seq in itertools.product(range(nm), repeat=N):
        H, f, g, Ar, br = _lift([mats[i] for i in seq], Q, R, P, [doms[i] for i in seq], X, x, nu)
        sl = slack(Ar, br)
        if -1e-3 < sl < 1e-4:
            raise Skip()
        if sl < 0:
            continue
        o = qp(H, f, Ar, br)
        if o is not None and (best is None or o[1] + g < best):
            best = o[1] + g
    u, xs, ms, V = c.feedforward(x)
    fb = c.feedback(x)
    if best is None:
        need(u is None and xs is None and ms is None and V is None and fb is None, 'a plan is returned for an infeasible state', **inp)
        return inp
    need(V is not None, 'no plan for a feasible state', **inp)
    need(abs(V - best) < 1e-3 * (1 + abs(best)), 'the cost %s is not that of the best mode sequence %s' % (V, best), **inp)
    need(len(u) == N and len(xs) == N + 1 and len(ms) == N, 'wrong lengths in the plan', **inp)
    need(all(np.shape(v) == (nu,) for v in u) and all(np.shape(v) == (nx,) for v in xs), 'wrong sizes in the plan', **inp)
    M = [mats[int(i)] for i in ms]
    cost, w, tr = _ocp(M, Q, R, P, [doms[int(i)] for i in ms], X, x, u)
    need(w < 1e-3, 'the returned plan violates the constraints of its modes', u=u, modes=[int(i) for i in ms], violation=w, **inp)
    need(all(close(a, b, 1e-3) for a, b in zip(xs, tr)), 'the returned states are not the trajectory of the inputs', u=u, **inp)
    need(abs(cost - V) < 1e-3 * (1 + abs(V)), 'the returned cost is not the cost of the plan', u=u, **inp)
    need(close(fb, u[0], 1e-4), 'the feedback is not the first input', **inp)
    # programs of fixed mode sequences
    q = c.get_mpqp([int(i) for i in ms])
    sol = q.solve(x)
    need(sol['min'] is not None and abs(sol['min'] - V) < 1e-3 * (1 + abs(V)), 'get_mpqp of the optimal modes has a different optimum', **inp)
    return inp
