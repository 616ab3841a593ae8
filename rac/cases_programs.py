"""Contracts of pympc.optimization, checked at run time (C11, C12, C13, C21)."""
import itertools
import numpy as np
from common import *
import pympc.optimization.programs as programs
import pympc.optimization.solvers.pnnls as pn
import pympc.optimization.solvers.gurobi as gu
from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram, MultiParametricMixedIntegerQuadraticProgram

KEYS = ('min', 'argmin', 'active_set', 'multiplier_inequality', 'multiplier_equality')


def _rprogram(rng, large=False):
    """Random constraints (A, b, C, d); C may be None."""
    n = int(rng.integers(1, 5))
    r = rng.random()
    if r < .45:
        A, b = rpolytope(rng, n)
        b = b + A.dot(ints(rng, -3, 3, n))
    elif r < .8:
        m = int(rng.integers(0, 7))
        A, b = ints(rng, -3, 3, m, n), ints(rng, -3, 6, m)
    else:
        a = rconstraints(rng, n, 1)
        A, b = rpolytope(rng, n)
        A, b = np.vstack((A, a, -a)), np.concatenate((b, [1.], [-1. - float(rng.integers(1, 3))]))
    C = d = None
    if rng.random() < .45:
        p = int(rng.integers(0, max(1, n) + 0))
        C = ints(rng, -2, 2, p, n)
        d = C.dot(ints(rng, -2, 2, n)) if rng.random() < .7 else ints(rng, -3, 3, p)
        if p and rng.random() < .2:
            C, d = np.vstack((C, C[:1])), np.concatenate((d, d[:1]))
    if rng.random() < .2:
        s = float(rng.choice([.1, 10.]))
        A, b = A * s, b * s
    if large and rng.random() < .12:
        b = b * 20.
        d = None if d is None else d * 20.
    return n, A, b, C, d


def _infeasible_margin(A, b, C, d):
    s = slack(A, b, C, d)
    if s is None:
        if np.linalg.norm(C.dot(np.linalg.pinv(C).dot(d)) - d) < 1e-2:
            raise Skip()
        return True
    if -1e-2 < s < 1e-6 and s != 0.:
        if abs(s) > 1e-9:
            raise Skip()
    return s < -1e-6


def _multipliers(sol, m, p, **inp):
    li = sol['multiplier_inequality']
    need(np.shape(li) == (m,), 'inequality multipliers have the wrong size', **inp)
    need(np.all(li >= -1e-6), 'negative inequality multiplier', multipliers=li, **inp)
    me = sol['multiplier_equality']
    if p:
        need(np.shape(me) == (p,), 'equality multipliers have the wrong size', **inp)
    else:
        need(me is None, 'equality multipliers without equalities', **inp)
        me = np.zeros(0)
    return li, me


def _check_lp(solve, rng, inp, tol=1e-7, active='multiplier'):
    f, A, b, C, d = (inp[k] for k in 'fAbCd')
    n = f.size
    C0 = np.zeros((0, n)) if C is None else C
    d0 = np.zeros(0) if d is None else d
    infeas = _infeasible_margin(A, b, C0, d0)
    st = 'infeasible' if infeas else lp(f, A, b, C0, d0)[0]
    s = snap(f, A, b, C, d)
    sol = solve(f, A, b, C, d)
    need(unchanged(s) is None, 'the solver modified its input', **inp)
    need(set(KEYS) <= set(sol), 'fields are missing in the solution', **inp)
    if st != 'opt':
        need(all(sol[k] is None for k in KEYS), 'a solution is reported for a program without optimum (%s)' % st, solution=sol, **inp)
        return sol
    need(sol['min'] is not None, 'no solution reported for a program with an optimum', **inp)
    x = sol['argmin']
    need(np.shape(x) == (n,), 'the minimizer has the wrong size', **inp)
    val = lp(f, A, b, C0, d0)[2]
    need(viol(A, b, C0, d0, x) < 1e-5, 'the minimizer is infeasible', solution=sol, **inp)
    need(abs(sol['min'] - val) < 1e-5 * (1 + abs(val)) and abs(f.dot(x) - val) < 1e-5 * (1 + abs(val)), 'the reported minimum %s is not the optimum %s' % (sol['min'], val), solution=sol, **inp)
    li, me = _multipliers(sol, A.shape[0], C0.shape[0], solution=sol, **inp)
    need(close(f + A.T.dot(li) + C0.T.dot(me), np.zeros(n), 1e-5), 'the multipliers are not stationary', solution=sol, **inp)
    need(abs(val + b.dot(li) + d0.dot(me)) < 1e-4 * (1 + abs(val)), 'duality gap', solution=sol, **inp)
    act = sorted(int(i) for i in sol['active_set'])
    if active == 'multiplier':
        need(act == [i for i in range(len(b)) if li[i] > tol], 'the active set is not the set of positive multipliers', solution=sol, **inp)
    else:
        need(all(abs(A[i].dot(x) - b[i]) < 1e-5 for i in act), 'an inactive inequality is in the active set', solution=sol, **inp)
    return sol


def _check_qp(solve, rng, inp, tol=1e-7, ktol=1e-5):
    H, f, A, b, C, d = (inp[k] for k in 'HfAbCd')
    n = f.size
    C0 = np.zeros((0, n)) if C is None else C
    d0 = np.zeros(0) if d is None else d
    infeas = _infeasible_margin(A, b, C0, d0)
    s = snap(H, f, A, b, C, d)
    sol = solve(H, f, A, b, C, d)
    need(unchanged(s) is None, 'the solver modified its input', **inp)
    need(set(KEYS) <= set(sol), 'fields are missing in the solution', **inp)
    if infeas:
        need(all(sol[k] is None for k in KEYS), 'a solution is reported for inconsistent constraints', solution=sol, **inp)
        return sol
    need(sol['min'] is not None, 'no solution reported for a feasible quadratic program', **inp)
    x = sol['argmin']
    need(np.shape(x) == (n,), 'the minimizer has the wrong size', **inp)
    need(viol(A, b, C0, d0, x) < ktol * (1 + np.abs(x).max()), 'the minimizer is infeasible', solution=sol, **inp)
    li, me = _multipliers(sol, A.shape[0], C0.shape[0], solution=sol, **inp)
    sc = 1. + np.abs(f).max() + (np.abs(li).max() if li.size else 0.) + (np.abs(me).max() if me.size else 0.)
    need(np.all(np.abs(H.dot(x) + f + A.T.dot(li) + C0.T.dot(me)) < 10 * ktol * sc), 'the solution is not stationary', solution=sol, **inp)
    need(np.all(np.abs(li * (A.dot(x) - b)) < 10 * ktol * sc), 'complementarity is violated', solution=sol, **inp)
    v = .5 * x.dot(H).dot(x) + f.dot(x)
    need(abs(sol['min'] - v) < 10 * ktol * (1 + abs(v)), 'the reported minimum is not the cost of the minimizer', solution=sol, **inp)
    act = sorted(int(i) for i in sol['active_set'])
    need(act == [i for i in range(len(b)) if li[i] > tol], 'the active set is not the set of positive multipliers', solution=sol, **inp)
    return sol


@case('C11', 3)
def lp_certificate(rng, k):
    n, A, b, C, d = _rprogram(rng, True)
    f = ints(rng, -3, 3, n) if rng.random() < .9 else np.zeros(n)
    if rng.random() < .1:
        f = f * 50.
    if rng.random() < .15:
        f, A, b = f.astype(int), A.astype(int), b.astype(int)
    inp = dict(f=f, A=A, b=b, C=C, d=d)
    solve = programs.linear_program if rng.random() < .6 else pn.linear_program
    _check_lp(solve, rng, inp)
    return inp


@case('C11', .3)
def lp_refuses(rng, k):
    n, A, b, C, d = _rprogram(rng)
    f = np.ones(n)
    C, d = np.ones((1, n)), np.ones(1)
    need(raises(ValueError, pn.linear_program, f, A, b, C) and raises(ValueError, pn.linear_program, f, A, b, None, d), 'C without d (or d without C) accepted', f=f, A=A, b=b)
    need(raises(ValueError, pn.quadratic_program, np.eye(n), f, A, b, C) and raises(ValueError, pn.quadratic_program, np.eye(n), f, A, b, None, d), 'C without d (or d without C) accepted', f=f, A=A, b=b)


@case('C11', .3)
def lp_tolerance(rng, k):
    """The active set and the acceptance follow the tolerance argument."""
    n = int(rng.integers(1, 4))
    A, b = rpolytope(rng, n)
    f = ints(rng, -3, 3, n)
    t = float(rng.choice([1e-9, 1e-5, .5]))
    s = pn.linear_program(f, A, b, tol=t)
    need(s['min'] is not None, 'no solution for a bounded program', f=f, A=A, b=b, tol=t)
    li = s['multiplier_inequality']
    need([int(i) for i in s['active_set']] == [i for i in range(len(b)) if li[i] > t], 'the active set ignores the tolerance', f=f, A=A, b=b, tol=t)


@case('C12', 3)
def qp_kkt(rng, k):
    n, A, b, C, d = _rprogram(rng)
    f = ints(rng, -5, 5, n)
    H = spd(rng, n) if rng.random() < .8 else np.eye(n)
    inp = dict(H=H, f=f, A=A, b=b, C=C, d=d)
    solve = programs.quadratic_program if rng.random() < .6 else pn.quadratic_program
    _check_qp(solve, rng, inp)
    return inp


@case('C12', .3)
def qp_tolerance(rng, k):
    n = int(rng.integers(1, 4))
    A, b = rpolytope(rng, n)
    f, H = ints(rng, -9, 9, n), spd(rng, n)
    t = float(rng.choice([1e-9, 1e-5, 1e-2]))
    s = pn.quadratic_program(H, f, A, b, tol=t)
    need(s['min'] is not None, 'no solution for a feasible program', H=H, f=f, A=A, b=b, tol=t)
    li = s['multiplier_inequality']
    need([int(i) for i in s['active_set']] == [i for i in range(len(b)) if li[i] > t], 'the active set ignores the tolerance', H=H, f=f, A=A, b=b, tol=t)


# ------------------------------------------------------------------ C13
def _big(rng):
    """Extra coefficients well above and well below the documented threshold 1e-9."""
    return float(rng.choice([1., 1., 1e-6, 1e3]))


@case('C13', .6)
def gurobi_lp(rng, k):
    n, A, b, C, d = _rprogram(rng)
    f = ints(rng, -3, 3, n)
    inp = dict(f=f, A=A, b=b, C=C, d=d)
    solve = gu.linear_program if rng.random() < .5 else (lambda *a: programs.linear_program(*a, solver='gurobi'))
    _check_lp(solve, rng, inp, active='basis')
    return inp


@case('C13', .6)
def gurobi_qp(rng, k):
    n, A, b, C, d = _rprogram(rng)
    f = ints(rng, -5, 5, n)
    H = spd(rng, n)
    inp = dict(H=H, f=f, A=A, b=b, C=C, d=d)
    if slack(A, b, C, d) is not None and -1e-6 <= slack(A, b, C, d) < 1e-3:
        raise Skip()
    solve = gu.quadratic_program if rng.random() < .5 else (lambda *a: programs.quadratic_program(*a, solver='gurobi'))
    _check_qp(solve, rng, inp, tol=1e-5, ktol=1e-4)
    return inp


@case('C13', .5)
def gurobi_miqp(rng, k):
    nc, nd = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    n = nc + nd
    H = np.zeros((n, n))
    full = rng.random() < .5
    if full:
        H = spd(rng, n)
    else:
        H[:nc, :nc] = spd(rng, nc)
    f = ints(rng, -4, 4, n)
    m = int(rng.integers(0, 5))
    A = np.hstack((ints(rng, -2, 2, m, nc), ints(rng, -4, 4, m, nd)))
    b = ints(rng, -2, 5, m)
    C = d = None
    if rng.random() < .4:
        C = np.hstack((ints(rng, -1, 1, 1, nc), ints(rng, -2, 2, 1, nd)))
        d = ints(rng, -1, 2, 1)
    best = None
    for z in itertools.product((0., 1.), repeat=nd):
        z = np.array(z)
        Hc = H[:nc, :nc]
        fc = f[:nc] + H[:nc, nc:].dot(z)
        Ac, bc = A[:, :nc], b - A[:, nc:].dot(z)
        Cc = None if C is None else C[:, :nc]
        dc = None if C is None else d - C[:, nc:].dot(z)
        s = slack(Ac, bc, Cc, dc)
        if s is None:
            continue
        if abs(s) < 1e-6 and s != 0. or -1e-2 < s < 0.:
            raise Skip()
        if s < 0:
            continue
        r = qp(Hc, fc, Ac, bc, Cc, dc)
        if r is None:
            continue
        v = r[1] + .5 * z.dot(H[nc:, nc:]).dot(z) + f[nc:].dot(z)
        if best is None or v < best:
            best = v
    inp = dict(nc=nc, H=H, f=f, A=A, b=b, C=C, d=d)
    s = snap(H, f, A, b, C, d)
    sol = (gu if rng.random() < .5 else programs).mixed_integer_quadratic_program(nc, H, f, A, b, C, d)
    need(unchanged(s) is None, 'the solver modified its input', **inp)
    if best is None:
        need(sol['min'] is None and sol['argmin'] is None, 'a solution is reported for an infeasible program', solution=sol, **inp)
        return inp
    need(sol['min'] is not None, 'no solution is reported for a feasible program', **inp)
    x = sol['argmin']
    need(np.shape(x) == (n,), 'the minimizer has the wrong size', **inp)
    need(np.all(np.minimum(np.abs(x[nc:]), np.abs(x[nc:] - 1.)) < 1e-4), 'a trailing variable is not binary', x=x, **inp)
    need(viol(A, b, np.zeros((0, n)) if C is None else C, np.zeros(0) if C is None else d, x) < 1e-4, 'the minimizer is infeasible', x=x, **inp)
    need(abs(sol['min'] - best) < 1e-3 * (1 + abs(best)), 'minimum %s, enumeration gives %s' % (sol['min'], best), x=x, **inp)
    need(abs(.5 * x.dot(H).dot(x) + f.dot(x) - sol['min']) < 1e-3 * (1 + abs(best)), 'the minimum is not the cost of the minimizer', x=x, **inp)
    return inp


@case('C13', .4)
def dispatch(rng, k):
    """The named solver is the one that runs."""
    n = int(rng.integers(1, 4))
    A, b = rpolytope(rng, n)
    f, H = ints(rng, -3, 3, n), spd(rng, n)
    count = [0]
    orig = gu.grb.Model

    def counted(*a, **k):
        count[0] += 1
        return orig(*a, **k)
    gu.grb.Model = counted
    try:
        for solver, calls in (('pnnls', 0), ('gurobi', 1)):
            count[0] = 0
            r = programs.linear_program(f, A, b, solver=solver)
            need(count[0] == calls and r['min'] is not None, 'linear_program(solver=%r) does not run that solver' % solver, f=f, A=A, b=b)
            count[0] = 0
            r = programs.quadratic_program(H, f, A, b, solver=solver)
            need(count[0] == calls and r['min'] is not None, 'quadratic_program(solver=%r) does not run that solver' % solver, f=f, A=A, b=b)
        count[0] = 0
        r = programs.mixed_integer_quadratic_program(n, H, f, A, b, solver='gurobi')
        need(count[0] == 1 and r['min'] is not None, 'mixed_integer_quadratic_program does not run gurobi', f=f, A=A, b=b)
    finally:
        gu.grb.Model = orig
    for bad in ('cplex', '', 'Gurobi'):
        need(raises(ValueError, programs.linear_program, f, A, b, solver=bad), 'linear_program accepts solver %r' % bad)
        need(raises(ValueError, programs.quadratic_program, H, f, A, b, solver=bad), 'quadratic_program accepts solver %r' % bad)
        need(raises(ValueError, programs.mixed_integer_quadratic_program, n, H, f, A, b, solver=bad), 'mixed_integer_quadratic_program accepts solver %r' % bad)
    need(raises(ValueError, programs.mixed_integer_quadratic_program, n, H, f, A, b, solver='pnnls'), 'mixed_integer_quadratic_program accepts pnnls')


# ------------------------------------------------------------------ C21
def _rmpqp(rng, nx=None, nu=None):
    nx = int(rng.integers(1, 4)) if nx is None else nx
    nu = int(rng.integers(1, 4)) if nu is None else nu
    M = spd(rng, nx + nu)
    H = {'uu': M[nx:, nx:], 'ux': M[nx:, :nx], 'xx': M[:nx, :nx]}
    f = {'u': ints(rng, -2, 2, nu), 'x': ints(rng, -2, 2, nx)}
    g = float(rng.integers(-3, 4))
    Au, bu = rbox(rng, nu)
    k = int(rng.integers(0, 3))
    A = {'u': np.vstack((Au, ints(rng, -2, 2, k, nu))), 'x': np.vstack((np.zeros((2 * nu, nx)), ints(rng, -1, 1, k, nx)))}
    b = np.concatenate((bu, ints(rng, 1, 4, k)))
    if rng.random() < .5:
        E = np.vstack((np.eye(nx), -np.eye(nx)))
        A['u'] = np.vstack((A['u'], np.zeros((2 * nx, nu))))
        A['x'] = np.vstack((A['x'], E))
        b = np.concatenate((b, 5. * np.ones(2 * nx)))
    p = rng.permutation(len(b))
    A['u'], A['x'], b = A['u'][p], A['x'][p], b[p]
    return H, f, g, A, b


def _mpqp(t):
    return MultiParametricQuadraticProgram(*t)


def _cost(t, x, u):
    H, f, g, A, b = t
    return .5 * u.dot(H['uu']).dot(u) + u.dot(H['ux']).dot(x) + .5 * x.dot(H['xx']).dot(x) + f['u'].dot(u) + f['x'].dot(x) + g


@case('C21', 1.5)
def fixed_parameter(rng, k):
    t = _rmpqp(rng)
    H, f, g, A, b = t
    if rng.random() < .2:
        f['x'] = f['x'] * 1e3
    q = _mpqp(t)
    x = ints(rng, -6, 6, A['x'].shape[1]) / 2.
    s = snap(H, f, A, b, x)
    sol = q.solve(x)
    need(unchanged(s) is None, 'solve modified its inputs', program=list(t), x=x)
    bb = b - A['x'].dot(x)
    sl_ = slack(A['u'], bb)
    if abs(sl_) < 1e-3:
        raise Skip()
    if sl_ < 0:
        need(all(sol[i] is None for i in ('min', 'argmin', 'active_set')), 'a solution is reported for an infeasible parameter', program=list(t), x=x)
        return
    need(sol['min'] is not None, 'no solution for a feasible parameter', program=list(t), x=x)
    r = qp(H['uu'], H['ux'].dot(x) + f['u'], A['u'], bb)
    v = _cost(t, x, r[0])
    need(close(sol['argmin'], r[0], 1e-4), 'the minimizer differs from the optimum', program=list(t), x=x, argmin=sol['argmin'], expected=r[0])
    need(abs(sol['min'] - v) < 1e-4 * (1 + abs(v)), 'the optimal value %s is not that of the full cost %s' % (sol['min'], v), program=list(t), x=x)
    return {'program': list(t), 'x': x}


def _kkt(t, x, u, p):
    """(dual violation, primal violation, stationarity and complementarity residual)"""
    H, f, g, A, b = t
    r = A['u'].dot(u) + A['x'].dot(x) - b
    st = np.abs(H['uu'].dot(u) + H['ux'].dot(x) + f['u'] + A['u'].T.dot(p)).max()
    return float(-p.min()) if p.size else -1., float(r.max()), float(max(st, np.abs(p * r).max() if p.size else 0.))


@case('C21', 1.5)
def critical_region(rng, k):
    t = _rmpqp(rng)
    H, f, g, A, b = t
    q = _mpqp(t)
    m = len(b)
    nu, nx = A['u'].shape[1], A['x'].shape[1]
    na = int(rng.integers(0, min(nu, m) + 1))
    act = [int(i) for i in rng.permutation(m)[:na]]
    if rng.random() < .4:
        # an active set that actually occurs
        x0 = ints(rng, -6, 6, nx) / 2.
        s0 = q.solve(x0)
        if s0['active_set'] is None:
            raise Skip()
        act = [int(i) for i in s0['active_set']]
    licq = len(act) == 0 or np.linalg.matrix_rank(A['u'][act]) == len(act)
    sv = np.linalg.svd(A['u'][act])[1] if len(act) else np.ones(1)
    if licq and sv.min() < 1e-2:
        raise Skip()
    s = snap(H, f, A, b)
    cr = q.explicit_solve_given_active_set(list(act))
    need(unchanged(s) is None, 'the explicit solution modified the program', program=list(t), active_set=act)
    if not licq:
        need(cr is None, 'a critical region is reported for dependent active constraints', program=list(t), active_set=act)
        return
    need(cr is not None, 'no critical region for independent active constraints', program=list(t), active_set=act)
    for _ in range(10):
        x = rng.normal(size=nx) * float(rng.choice([.3, 1., 3.]))
        u, p = cr.u(x), cr.p(x)
        need(np.shape(u) == (nu,) and np.shape(p) == (m,), 'wrong sizes of the explicit solution', program=list(t), active_set=act)
        dv, pv, res = _kkt(t, x, u, p)
        need(res < 1e-6 * (1 + np.abs(p).max() + np.abs(u).max()), 'the explicit solution is not stationary or not complementary', program=list(t), active_set=act, x=x, u=u, p=p)
        need(abs(cr.V(x) - _cost(t, x, u)) < 1e-6 * (1 + abs(cr.V(x))), 'the explicit value is not the cost of the explicit solution', program=list(t), active_set=act, x=x)
        w = max(dv, pv)
        if w < -1e-6 or (w < 1e-9):
            need(bool(cr.contains(x)), 'a parameter where the optimality conditions hold is outside the region', program=list(t), active_set=act, x=x)
        elif w > 1e-4 * (1 + np.abs(p).max() + np.abs(u).max()):
            need(not cr.contains(x), 'the region contains a parameter where the optimality conditions fail', program=list(t), active_set=act, x=x, violation=w)
    return {'program': list(t), 'active_set': act}


# a program one of whose regions has a facet that is parallel to none of the axes: the projection of its own row is made of rounding errors
_TILTED = ({'uu': np.array([[1.8253957206096185]]), 'ux': np.array([[0.87376598219703, -0.31360815944122095]]), 'xx': np.array([[2.364171930751254, 0.34532226776037334], [0.34532226776037334, 4.364653172117304]])},
           {'u': np.array([1.0]), 'x': np.array([1.0, 2.0])}, 2.0,
           {'u': np.array([[0.0], [0.0], [1.0], [-2.0], [-1.0], [0.0], [0.0], [2.0], [0.0], [0.0], [0.0], [0.0]]), 'x': np.array([[-0.0, -1.0], [-1.0, -0.0], [0.0, 0.0], [-1.0, 0.0], [0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [-1.0, 0.0], [1.0, 0.0], [0.0, 1.0], [-1.0, -0.0], [-0.0, -1.0]])},
           np.array([5.0, 5.0, 3.0, 1.0, 1.0, 5.0, 5.0, 3.0, 2.0, 2.0, 2.0, 2.0]))


@case('C21', .25)
def explicit(rng, k):
    nx = int(rng.integers(1, 3))
    t = _rmpqp(rng, nx, int(rng.integers(1, 3)))
    H, f, g, A, b = t
    E = np.vstack((np.eye(nx), -np.eye(nx)))
    A = {'u': np.vstack((A['u'], np.zeros((2 * nx, A['u'].shape[1])))), 'x': np.vstack((A['x'], E))}
    b = np.concatenate((b, 2. * np.ones(2 * nx)))
    if nx == 1 and rng.random() < .4 and np.abs(H['ux']).min() > .2:
        # every parameter is feasible
        nu = A['u'].shape[1]
        A['u'], b = rbox(rng, nu)
        A['x'] = np.zeros((2 * nu, 1))
    t = (H, f, g, A, b)
    if k == 2:
        nx, t = 2, _TILTED
        H, f, g, A, b = t
    q = _mpqp(t)
    s = snap(H, f, A, b)
    try:
        e = q.explicit_solve()
    except (TypeError, ValueError, np.linalg.LinAlgError):
        raise Skip()          # degenerate facets: exploration is not claimed to terminate normally there
    need(unchanged(s) is None, 'explicit_solve modified the program', program=list(t))
    for cr in e.critical_regions:
        for i in range(cr.A.shape[0]):
            if i in cr.minimal_facets():
                c = cr.facet_center(i)
                if c is not None:
                    c = np.atleast_1d(c)
                    need(abs(cr.A[i].dot(c) - cr.b[i]) < 1e-5 and cr.polyhedron.contains(c, 1e-5), 'the centre of a facet is not on the facet', program=list(t), facet=i, c=c)
    hits = 0
    for _ in range(15):
        x = rng.uniform(-2.4, 2.4, nx)
        cr = e.get_critical_region(x)
        u, p, V = e.u(x), e.p(x), e.V(x)
        inside = [c for c in e.critical_regions if c.contains(x)]
        if not inside:
            need(cr is None and u is None and p is None and V is None, 'a solution is reported outside all critical regions', program=list(t), x=x)
            continue
        need(cr is not None and cr.contains(x), 'the reported critical region does not contain the parameter', program=list(t), x=x)
        hits += 1
        sl_ = slack(A['u'], b - A['x'].dot(x))
        if sl_ < 1e-4:
            continue
        r = qp(H['uu'], H['ux'].dot(x) + f['u'], A['u'], b - A['x'].dot(x))
        need(close(u, r[0], 1e-3), 'the explicit solution is not optimal', program=list(t), x=x, u=u, expected=r[0])
        v = _cost(t, x, r[0])
        need(abs(V - v) < 1e-3 * (1 + abs(v)), 'the explicit value is not optimal', program=list(t), x=x, V=V, expected=v)
        dv, pv, res = _kkt(t, x, u, p)
        need(max(dv, pv, res) < 1e-4 * (1 + np.abs(p).max()), 'the explicit multipliers violate the optimality conditions', program=list(t), x=x, p=p)
    return {'program': list(t), 'regions': len(e.critical_regions), 'hits': hits}


@case('C21', .4)
def given_point(rng, k):
    t = _rmpqp(rng)
    H, f, g, A, b = t
    q = _mpqp(t)
    nx = A['x'].shape[1]
    x = rng.uniform(-2, 2, nx)
    m = len(b)
    guess = None if rng.random() < .3 else sorted(int(i) for i in rng.permutation(m)[:int(rng.integers(0, 3))])
    sl_ = slack(A['u'], b - A['x'].dot(x))
    if abs(sl_) < 1e-3:
        raise Skip()
    try:
        cr = q.explicit_solve_given_point(x, guess)
    except np.linalg.LinAlgError:
        raise Skip()
    if sl_ < 0:
        need(cr is None, 'a critical region is reported for an infeasible parameter', program=list(t), x=x, guess=guess)
        return
    if cr is None:
        # only possible when the active constraints are dependent
        act = q.solve(x)['active_set']
        need(np.linalg.matrix_rank(A['u'][act]) < len(act), 'no critical region for a feasible parameter', program=list(t), x=x, guess=guess)
        return
    r = qp(H['uu'], H['ux'].dot(x) + f['u'], A['u'], b - A['x'].dot(x))
    need(close(cr.u(x), r[0], 1e-3), 'the critical region found for a parameter is not optimal there', program=list(t), x=x, guess=guess, u=cr.u(x), expected=r[0])


@case('C21', .3)
def feasible_set(rng, k):
    nx, nu = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    H, f, g, A, b = _rmpqp(rng, nx, nu)
    E = np.vstack((np.eye(nx), -np.eye(nx)))
    A = {'u': np.vstack((A['u'], np.zeros((2 * nx, nu)))), 'x': np.vstack((A['x'], E))}
    b = np.concatenate((b, 2. * np.ones(2 * nx)))
    t = (H, f, g, A, b)
    if slack(np.hstack((A['x'], A['u'])), b) < 1e-2:
        raise Skip()
    s = snap(H, f, A, b)
    try:
        P = _mpqp(t).get_feasible_set()
    except np.linalg.LinAlgError:
        raise Skip()
    need(unchanged(s) is None, 'get_feasible_set modified the program', program=list(t))
    need(P.A.shape[1] == nx, 'the feasible set is not a set of parameters', program=list(t))
    for _ in range(10):
        x = rng.uniform(-2.4, 2.4, nx)
        sl_ = slack(A['u'], b - A['x'].dot(x))
        if abs(sl_) < 1e-3:
            continue
        need(bool(P.contains(x)) == (sl_ > 0), 'the feasible set differs from the parameters with a feasible decision', program=list(t), x=x)
    return {'program': list(t)}
