"""Contracts of pympc.geometry, checked at run time (C01 - C10, C23)."""
from copy import copy
import itertools
import numpy as np
import scipy.linalg as sl
from common import *
from pympc.geometry.polyhedron import Polyhedron
from pympc.geometry.utils import nullspace_basis, linearly_independent_rows, plane_through_points, same_rows, same_vectors


# ------------------------------------------------------------------ C01
class Model(object):
    """Own record of the constraints a history of operations should produce."""

    def __init__(self, n):
        self.n = n
        self.le = []
        self.eq = []

    def add_le(self, a, b):
        self.le.append((np.array(a, float), float(b)))

    def add_eq(self, a, b):
        self.eq.append((np.array(a, float), float(b)))

    def has(self, x, tol=1e-9):
        return all(a.dot(x) - b <= tol for a, b in self.le) and all(abs(a.dot(x) - b) <= tol for a, b in self.eq)


def _pool(rng, n):
    pts = [ints(rng, -4, 4, n) for _ in range(25)] + [ints(rng, -9, 9, n) / 2. for _ in range(15)]
    return pts + [np.zeros(n)]


def _indices(rng, n, allow_none=True):
    """(argument, list) for the indices parameter: any order, any sequence type."""
    if allow_none and rng.random() < .3:
        return None, list(range(n))
    k = int(rng.integers(1, n + 1))
    l = [int(i) for i in rng.permutation(n)[:k]]
    if rng.random() < .15:
        l = l + [l[0]]
    r = rng.random()
    if r < .6:
        return l, l
    if r < .8:
        return tuple(l), l
    lo = int(rng.integers(0, n))
    hi = int(rng.integers(lo + 1, n + 1))
    return range(lo, hi), list(range(lo, hi))


def _agree(P, M, pool, what, hist):
    need(P.A.ndim == 2 and P.b.ndim == 1 and P.C.ndim == 2 and P.d.ndim == 1, 'stored constraints have wrong shapes after ' + what, history=hist)
    need(P.A.shape == (P.b.size, M.n) and P.C.shape == (P.d.size, M.n), 'stored constraints have incoherent sizes after ' + what, history=hist)
    for x in pool:
        need(member(P, x) == M.has(x), 'membership of a point differs from the constraints given, after ' + what, history=hist, point=x, polyhedron=P)


def _embed(a, idx, n):
    r = np.zeros(n)
    for c, i in zip(a, idx):
        r[i] += c
    return r


@case('C01', 2)
def history(rng, k):
    n = int(rng.integers(1, 6))
    pool = _pool(rng, n)
    M = Model(n)
    hist = []
    idt = bool(rng.random() < .2)
    conv = (lambda a: np.asarray(a).astype(int)) if idt else (lambda a: np.asarray(a, float))
    r = int(rng.integers(0, 6))
    if r <= 1:
        m = int(rng.integers(0, 4))
        A = conv(ints(rng, -3, 3, m, n))
        b = conv(ints(rng, -2, 8, m))
        if r == 0 or n == 1:
            P = Polyhedron(A, b)
            hist.append(['Polyhedron', A, b])
        else:
            p = int(rng.integers(0, 3))
            C = conv(ints(rng, -2, 2, p, n))
            d = C.dot(conv(pool[int(rng.integers(25))]))
            P = Polyhedron(A, b, C, d)
            hist.append(['Polyhedron', A, b, C, d])
            for i in range(p):
                M.add_eq(C[i], d[i])
        for i in range(m):
            M.add_le(A[i], b[i])
    else:
        if rng.random() < .5:
            arg, idx, kw = None, list(range(n)), {}
            if rng.random() < .3:
                kw = {'n': n}
        else:
            arg, idx = _indices(rng, n, False)
            kw = {'indices': arg, 'n': n}
        lo = -ints(rng, 0, 4, len(idx))
        hi = ints(rng, 0, 4, len(idx))
        if r == 2:
            P = Polyhedron.from_lower_bound(lo, **kw)
        elif r == 3:
            P = Polyhedron.from_upper_bound(hi, **kw)
        else:
            P = Polyhedron.from_bounds(lo, hi, **kw)
        hist.append([['from_lower_bound', 'from_upper_bound', 'from_bounds', 'from_bounds'][r - 2], lo, hi, str(kw)])
        for c, i in enumerate(idx):
            e = _embed([1.], [i], n)
            if r != 3:
                M.add_le(-e, -lo[c])
            if r != 2:
                M.add_le(e, hi[c])
    if idt and rng.random() < .5:
        # integer data extended by other data
        conv = lambda a: np.asarray(a, float) / 2.
    _agree(P, M, pool, 'construction', hist)
    other = Polyhedron(P.A, P.b, P.C, P.d)
    frame = snap(other)
    for step in range(int(rng.integers(1, 6))):
        op = int(rng.integers(0, 7))
        if op == 6 and rng.random() < .5:
            # derive a copy and keep working on it: the source must not move
            frame += snap(P)
            P = copy(P)
            hist.append(['copy'])
            continue
        arg, idx = _indices(rng, n)
        kw = {} if arg is None and rng.random() < .5 else {'indices': arg}
        if op == 0 or op == 6:
            m = int(rng.integers(0, 3))
            A = conv(ints(rng, -3, 3, m, len(idx)))
            b = conv(ints(rng, -2, 8, m))
            s = snap(A, b)
            P.add_inequality(A, b, **kw)
            hist.append(['add_inequality', A, b, str(kw)])
            for i in range(m):
                M.add_le(_embed(A[i], idx, n), b[i])
        elif op == 1:
            m = int(rng.integers(0, 2)) if n > 1 else 0
            A = conv(ints(rng, -2, 2, m, len(idx)))
            x0 = pool[int(rng.integers(25))]
            b = A.dot(conv([x0[i] for i in idx])) if m else conv(np.zeros(0))
            s = snap(A, b)
            P.add_equality(A, b, **kw)
            hist.append(['add_equality', A, b, str(kw)])
            for i in range(m):
                M.add_eq(_embed(A[i], idx, n), b[i])
        else:
            if rng.random() < .2:
                i = int(rng.integers(n))
                idx = [i]
                lo, hi = float(-rng.integers(0, 5)), float(rng.integers(0, 5))
                args = {'indices': [i]}
                lov, hiv = [lo], [hi]
            else:
                lo, hi = -ints(rng, 0, 5, len(idx)), ints(rng, 0, 5, len(idx))
                args = kw
                lov, hiv = lo, hi
            s = snap(lo, hi)
            nm = ['add_lower_bound', 'add_upper_bound', 'add_bounds', 'add_bounds'][op - 2]
            if op == 2:
                P.add_lower_bound(lo, **args)
            elif op == 3:
                P.add_upper_bound(hi, **args)
            else:
                P.add_bounds(lo, hi, **args)
            hist.append([nm, lo, hi, str(args)])
            for c, i in enumerate(idx):
                e = _embed([1.], [i], n)
                if op != 3:
                    M.add_le(-e, -lov[c])
                if op != 2:
                    M.add_le(e, hiv[c])
        need(unchanged(s) is None, 'an argument was modified by ' + hist[-1][0], history=hist)
        need(unchanged(frame) is None, 'another polyhedron was modified by ' + hist[-1][0], history=hist)
        _agree(P, M, pool, hist[-1][0], hist)
    return {'history': hist}


@case('C01', .3)
def refused(rng, k):
    n = int(rng.integers(1, 5))
    m = int(rng.integers(1, 4))
    A, b = rpolytope(rng, n)
    bad = b[:-1] if rng.random() < .5 else np.concatenate((b, [1.]))
    need(raises(ValueError, Polyhedron, A, bad), 'incoherent A and b accepted', A=A, b=bad)
    need(raises(ValueError, Polyhedron, A, b.reshape(-1, 1)), 'two-dimensional b accepted', A=A, b=b)
    C, d = ints(rng, -2, 2, m, n), ints(rng, -2, 2, m)
    need(raises(ValueError, Polyhedron, A, b, C), 'C without d accepted', A=A)
    need(raises(ValueError, Polyhedron, A, b, None, d), 'd without C accepted', A=A)
    need(raises(ValueError, Polyhedron, A, b, C, d[:-1]), 'incoherent C and d accepted', A=A, C=C, d=d[:-1])
    need(raises(ValueError, Polyhedron, A, b, C, d.reshape(-1, 1)), 'two-dimensional d accepted', A=A, C=C)
    P = Polyhedron(A, b)
    s = snap(P)
    need(raises(ValueError, P.add_inequality, C, np.concatenate((d, [0.]))), 'add_inequality accepts incoherent sizes', A=A, b=b)
    need(raises(ValueError, P.add_equality, C, np.concatenate((d, [0.]))), 'add_equality accepts incoherent sizes', A=A, b=b)
    need(raises(ValueError, P.add_lower_bound, np.zeros(n + 1)), 'add_lower_bound accepts incoherent sizes', A=A, b=b)
    need(raises(ValueError, P.add_upper_bound, np.zeros(n + 1)), 'add_upper_bound accepts incoherent sizes', A=A, b=b)
    need(unchanged(s) is None, 'a refused operation changed the polyhedron', A=A, b=b)
    x = np.ones(1)
    need(raises(ValueError, Polyhedron.from_lower_bound, x, [0]), 'from_lower_bound with indices and no n accepted')
    need(raises(ValueError, Polyhedron.from_upper_bound, x, [0]), 'from_upper_bound with indices and no n accepted')
    need(raises(ValueError, Polyhedron.from_bounds, -x, x, [0]), 'from_bounds with indices and no n accepted')
    need(raises(ValueError, Polyhedron.from_bounds, -np.ones(2), np.ones(3)), 'from_bounds with bounds of different size accepted')


@case('C01', .15)
def symbolic(rng, k):
    import sympy as sp
    n = int(rng.integers(1, 4))
    x = sp.Matrix([sp.Symbol('x%d' % i, real=True) for i in range(n)])
    pool = _pool(rng, n)
    M = Model(n)

    def expr(m):
        A = ints(rng, -3, 3, m, n)
        b = ints(rng, -3, 5, m)
        return A, b, sp.Matrix([sum(A[i, j] * x[j] for j in range(n)) - b[i] for i in range(m)])
    A, b, e = expr(int(rng.integers(1, 4)))
    eq = None
    if rng.random() < .5:
        C, d, _ = expr(1)
        d = C.dot(pool[3])
        eq = sp.Matrix([sum(C[0, j] * x[j] for j in range(n)) - d[0]])
        M.add_eq(C[0], d[0])
        P = Polyhedron.from_symbolic(x, e, eq)
    else:
        P = Polyhedron.from_symbolic(x, e)
    for i in range(len(b)):
        M.add_le(A[i], b[i])
    hist = [str(e), str(eq)]
    _agree(P, M, pool, 'from_symbolic', hist)
    A, b, e = expr(2)
    P.add_symbolic_inequality(x, e)
    for i in range(2):
        M.add_le(A[i], b[i])
    hist.append(str(e))
    _agree(P, M, pool, 'add_symbolic_inequality', hist)
    C, d, _ = expr(1)
    d = C.dot(pool[5])
    e = sp.Matrix([sum(C[0, j] * x[j] for j in range(n)) - d[0]])
    P.add_symbolic_equality(x, e)
    M.add_eq(C[0], d[0])
    hist.append(str(e))
    _agree(P, M, pool, 'add_symbolic_equality', hist)


# ------------------------------------------------------------------ C02
@case('C02', 4)
def membership(rng, k):
    n = int(rng.integers(1, 5))
    m, p = int(rng.integers(0, 5)), int(rng.integers(0, 4))
    if rng.random() < .15:
        m = int(rng.integers(5, 60))
    A, C = ints(rng, -4, 4, m, n), ints(rng, -4, 4, p, n)
    x = ints(rng, -16, 16, n) / 4.
    tol = [None, 1e-7, 1e-3, 1., 2. ** -10][int(rng.integers(5))]
    t = 1e-7 if tol is None else tol
    # residuals on a grid around the tolerance
    grid = np.array([0., .5 * t, -.5 * t, 2. * t, -2 * t, -1e3 * t, 50 * t, -5., 3.])
    bias = rng.random() if m < 5 else 1. - .5 / m
    r = np.where(rng.random(m) < bias, rng.choice([0., .5 * t, -2 * t, -5.], m), rng.choice(grid, m)) if m else np.zeros(0)
    q = np.where(rng.random(p) < bias, rng.choice([0., .5 * t, -.5 * t], p), rng.choice(grid, p)) if p else np.zeros(0)
    b = A.dot(x) - r
    d = C.dot(x) - q
    truth = all(v <= t for v in r) and all(abs(v) <= t for v in q)
    P = Polyhedron(A, b, C, d) if p or rng.random() < .5 else Polyhedron(A, b)
    s = snap(P, x)
    ans = P.contains(x) if tol is None else P.contains(x, tol)
    need(bool(ans) == truth, 'contains answers %s, the constraints say %s' % (ans, truth), A=A, b=b, C=C, d=d, x=x, tol=tol)
    need(unchanged(s) is None, 'contains modified its inputs', A=A, b=b, x=x)
    return {'A': A, 'b': b, 'C': C, 'd': d, 'x': x, 'tol': t, 'answer': bool(ans)}


# ------------------------------------------------------------------ C03
def _anypoly(rng, n, pool):
    m, p = int(rng.integers(0, 5)), int(rng.integers(0, 3))
    A = ints(rng, -2, 2, m, n)
    b = ints(rng, -1, 6, m)
    C = ints(rng, -1, 1, p, n)
    d = C.dot(pool[int(rng.integers(len(pool)))]) if p else np.zeros(0)
    return Polyhedron(A, b, C, d) if p else Polyhedron(A, b)


def _touch(P):
    """Fill the caches, whatever they are."""
    for q in ('empty', 'bounded', 'radius', 'center', 'vertices'):
        try:
            getattr(P, q)
        except Exception:
            pass


@case('C03', 2)
def set_operations(rng, k):
    n1 = int(rng.integers(1, 5))
    n2 = n1 if rng.random() < .5 else int(rng.integers(1, 4))
    pool1, pool2 = _pool(rng, n1), _pool(rng, n2)
    P1 = _anypoly(rng, n1, pool1)
    P2 = _anypoly(rng, n2, pool2 if n2 != n1 else pool1)
    if n1 == n2 and rng.random() < .25:
        P2 = P1
    if rng.random() < .3:
        _touch(P1), _touch(P2)
    s = snap(P1, P2)
    if n1 == n2:
        I = P1.intersection(P2)
        for x in pool1 + pool2:
            need(member(I, x) == (member(P1, x) and member(P2, x)), 'intersection differs from the points in both', P1=P1, P2=P2, point=x, result=I)
        need(unchanged(s) is None, 'intersection modified an operand', P1=P1, P2=P2)
    X = P1.cartesian_product(P2)
    need(X.A.shape[1] == n1 + n2 and X.C.shape[1] == n1 + n2, 'product has wrong dimension', P1=P1, P2=P2)
    for i in range(40):
        x, y = pool1[int(rng.integers(len(pool1)))], pool2[int(rng.integers(len(pool2)))]
        need(member(X, np.concatenate((x, y))) == (member(P1, x) and member(P2, y)), 'Cartesian product differs from the pairs', P1=P1, P2=P2, x=x, y=y, result=X)
    need(unchanged(s) is None, 'cartesian_product modified an operand', P1=P1, P2=P2)
    # the result may share no mutable state: extending it must not move the operands
    if n1 == n2:
        I.add_inequality(np.ones((1, n1)), np.zeros(1))
        I.normalize()
    X.add_equality(np.ones((1, n1 + n2)), np.zeros(1))
    need(unchanged(s) is None, 'extending the result modified an operand', P1=P1, P2=P2)
    return {'P1': P1, 'P2': P2}


@case('C03', .4)
def no_inherited_attributes(rng, k):
    n = int(rng.integers(1, 3))
    A1, b1 = rpolytope(rng, n)
    A2, b2 = rpolytope(rng, n)
    sh = ints(rng, -9, 9, n)
    P1, P2 = Polyhedron(A1, b1), Polyhedron(A2, b2 + A2.dot(sh))
    _touch(P1), _touch(P2)
    for R, nm in ((P1.intersection(P2), 'intersection'), (P1.cartesian_product(P2), 'cartesian_product')):
        st, rad, _ = chebyshev_oracle(R.A, R.b)
        if abs(rad) < 1e-3:
            raise Skip()
        need(R.empty == (rad < 0), nm + ' reports the emptiness of an operand', P1=P1, P2=P2)
        need(abs(R.radius - rad) < 1e-5, nm + ' reports the radius of an operand', P1=P1, P2=P2, radius=R.radius, expected=rad)


# ------------------------------------------------------------------ C04
def _kind(rng, n, kind):
    """A polyhedron of a given kind: bounded, unbounded, empty, with equalities."""
    A, b = rpolytope(rng, n)
    C, d = np.zeros((0, n)), np.zeros(0)
    if 'u' in kind:
        keep = rng.permutation(A.shape[0])[:max(1, int(rng.integers(1, n + 1)))]
        A, b = A[keep], b[keep]
    if 'e' in kind and n > 1:
        C, d = reqs(rng, n, int(rng.integers(1, n)))
    if 'x' in kind:
        a = rconstraints(rng, n, 1)
        A = np.vstack((A, a, -a))
        b = np.concatenate((b, [1.], [-2.]))
    if 'm' in kind:
        A, b = np.zeros((0, n)), np.zeros(0)
    return A, b, C, d


def _mk(A, b, C, d, rng=None):
    if C.shape[0] == 0 and (rng is None or rng.random() < .7):
        return Polyhedron(A, b)
    return Polyhedron(A, b, C, d)


@case('C04', 2)
def inclusion(rng, k):
    n = int(rng.integers(1, 4))
    kind1 = ['', '', 'e', 'u', 'x', 'ue', 'em'][int(rng.integers(7))]
    kind2 = ['', '', '', 'e', 'u', 'ue', 'm'][int(rng.integers(7))]
    A1, b1, C1, d1 = _kind(rng, n, kind1)
    A2, b2, C2, d2 = _kind(rng, n, kind2)
    r = rng.random()
    if r < .45:
        # make inclusion likely: relax P2 around P1 (same rows, larger offset)
        j = rng.permutation(A1.shape[0])[:int(rng.integers(0, A1.shape[0] + 1))]
        A2, b2 = np.vstack((A1[j], A2[:1])), np.concatenate((b1[j] + ints(rng, 0, 2, len(j)), b2[:1] + (6. if rng.random() < .8 else 0.)))
        if rng.random() < .5:
            A2, b2 = A1[j], b1[j] + ints(rng, 0, 2, len(j))
        C2, d2 = C1[:int(rng.integers(0, C1.shape[0] + 1))], d1[:]
        d2 = d2[:C2.shape[0]]
    if C1.shape[0] and rng.random() < .3:
        d2 = d2 + (1. if rng.random() < .5 else 0.)
    if rng.random() < .25:
        t = rng.choice([1., 1., 2. ** -8, 32.], A2.shape[0])
        A2, b2 = A2 * t[:, None], b2 * t
    P1, P2 = _mk(A1, b1, C1, d1, rng), _mk(A2, b2, C2, d2, rng)
    s1 = slack(A1, b1, C1, d1)
    if s1 is not None and -1e-3 < s1 < 1e-3:
        raise Skip()
    truth, margin = True, np.inf
    if s1 is not None and s1 > 0:
        G = np.vstack((A2, C2, -C2))
        g = np.concatenate((b2, d2, -d2))
        for i in range(G.shape[0]):
            st, _, v = lp(-G[i], A1, b1, C1, d1)
            if st == 'unbounded':
                truth = False
            else:
                e = -v - g[i]
                if 1e-9 < e < 1e-4:
                    raise Skip()
                truth = truth and e <= 1e-9
    s = snap(P1, P2)
    ans = P1.is_included_in(P2)
    need(bool(ans) == truth, 'is_included_in answers %s, should be %s' % (ans, truth), P1=P1, P2=P2)
    need(unchanged(s) is None, 'is_included_in modified an operand', P1=P1, P2=P2)
    return {'P1': P1, 'P2': P2, 'answer': bool(ans)}


@case('C04', .5)
def inclusion_tolerance(rng, k):
    n = int(rng.integers(1, 4))
    A, b = rpolytope(rng, n, 0)
    i = int(rng.integers(A.shape[0]))
    over = float(rng.choice([.02, .3, 1.5]))
    b2 = b.copy()
    b2[i] -= over
    P1, P2 = Polyhedron(A, b), Polyhedron(A, b2)
    for tol in (.01, .1, 1., 2.):
        need(bool(P1.is_included_in(P2, tol)) == (over <= tol), 'is_included_in ignores its tolerance', A=A, b=b, b2=b2, tol=tol)


# ------------------------------------------------------------------ C05
def _attr_check(P, hist):
    """Attributes against those of a fresh polyhedron with the same constraints."""
    if P.C.shape[0] and np.linalg.matrix_rank(P.C) < P.C.shape[0] or P.C.shape[0] >= P.A.shape[1]:
        raise Skip()
    Q = Polyhedron(np.array(P.A, float), np.array(P.b, float), np.array(P.C, float), np.array(P.d, float))
    st, rad, nr = chebyshev_oracle(Q.A, Q.b, Q.C, Q.d)
    if st == 'opt' and abs(rad) < 1e-3:
        raise Skip()
    return Q, st, rad, nr


def _query(P, q, hist):
    Q, st, rad, nr = _attr_check(P, hist)
    if q == 'empty':
        need(bool(P.empty) == bool(Q.empty), 'empty is stale', history=hist, polyhedron=P)
    elif q == 'bounded':
        need(bool(P.bounded) == bool(Q.bounded), 'bounded is stale', history=hist, polyhedron=P)
    elif q == 'radius':
        a, b = P.radius, Q.radius
        need((a is None) == (b is None) and (a is None or abs(a - b) < 1e-5), 'radius is stale', history=hist, polyhedron=P, radius=a, expected=b)
    elif q == 'center':
        c, b = P.center, Q.radius
        need((c is None) == (b is None), 'center is stale', history=hist, polyhedron=P)
        if c is not None:
            need(viol(Q.A, Q.b - nr * b, Q.C, Q.d, c) < 1e-5, 'center is stale', history=hist, polyhedron=P, center=c)
    else:
        if np.all(nr > 1e-6) and (Q.radius is not None or not Q.bounded):
            v, w = P.vertices, Q.vertices
            need((v is None) == (w is None), 'vertices are stale', history=hist, polyhedron=P)
            if v is not None:
                v, w = np.vstack(v), np.vstack(w)
                for _ in range(6):
                    g = np.random.standard_normal(v.shape[1])
                    need(abs(np.max(v.dot(g)) - np.max(w.dot(g))) < 1e-5 * (1 + abs(np.max(w.dot(g)))), 'vertices are stale', history=hist, polyhedron=P)


@case('C05', 1.5)
def history_of_queries(rng, k):
    n = int(rng.integers(1, 4))
    A, b = rpolytope(rng, n)
    if rng.random() < .2:
        A, b, _, _ = _kind(rng, n, 'u')
    P = Polyhedron(A, b)
    live = [P]
    hist = [['Polyhedron', A, b]]
    for step in range(int(rng.integers(4, 10))):
        P = live[int(rng.integers(len(live)))]
        who = live.index(P)
        op = int(rng.integers(0, 14))
        if op >= 6:
            q = ['empty', 'bounded', 'radius', 'center', 'vertices'][int(rng.integers(5))]
            hist.append([who, 'query', q])
            _query(P, q, hist)
        elif op == 0:
            a = rconstraints(rng, n, 1)
            c = ints(rng, -1, 3, 1)
            hist.append([who, 'add_inequality', a, c])
            P.add_inequality(a, c)
        elif op == 1:
            if n > 1 and P.C.shape[0] == 0:
                a = rconstraints(rng, n, 1, -1, 1)
                hist.append([who, 'add_equality', a])
                P.add_equality(a, np.zeros(1))
        elif op == 2:
            i = int(rng.integers(n))
            v = ints(rng, -2, 2, 1)
            nm = ['add_lower_bound', 'add_upper_bound', 'add_bounds'][int(rng.integers(3))]
            hist.append([who, nm, v, i])
            if nm == 'add_bounds':
                P.add_bounds(v, v + 2, [i])
            else:
                getattr(P, nm)(v, [i])
        elif op == 3:
            hist.append([who, 'normalize'])
            P.normalize()
        elif op == 4:
            if P.C.shape[0] and (np.linalg.matrix_rank(P.C) < P.C.shape[0] or P.C.shape[0] >= n):
                raise Skip()
            if slack(P.A, P.b, P.C, P.d) is not None and slack(P.A, P.b, P.C, P.d) > 1e-2:
                hist.append([who, 'remove_redundant_inequalities'])
                P.remove_redundant_inequalities()
        elif op == 5 and len(live) < 4:
            r = int(rng.integers(3))
            if r == 0:
                live.append(copy(P))
                hist.append([who, 'copy ->', len(live) - 1])
            elif r == 1:
                live.append(Polyhedron(P.A, P.b, P.C, P.d))
                hist.append([who, 'same arrays ->', len(live) - 1])
            else:
                Q = live[int(rng.integers(len(live)))]
                if P.C.shape[0] + Q.C.shape[0] < n:
                    live.append(P.intersection(Q))
                    hist.append([who, 'intersection with %d ->' % live.index(Q), len(live) - 1])
    for w, P in enumerate(live):
        for q in ('empty', 'bounded', 'radius', 'center', 'vertices'):
            hist.append([w, 'query', q])
            _query(P, q, hist)
    return {'history': hist}


@case('C08', .3)
@case('C05', .3)
def queries_of_a_projection(rng, k):
    """The projection of a polytope whose answers are known is queried, changed, and queried again."""
    n = int(rng.integers(2, 4))
    A, b = rpolytope(rng, n)
    P = Polyhedron(A, b)
    if rng.random() < .6:
        _touch(P)
    dims = sorted(int(i) for i in rng.permutation(n)[:int(rng.integers(1, n))])
    R = P.project_to(dims)
    hist = [A, b, 'project_to', dims]
    qs = ['empty', 'bounded', 'radius', 'center', 'vertices']
    for q in [qs[int(i)] for i in rng.permutation(5)]:
        hist.append(q)
        _query(R, q, hist)
    i = int(rng.integers(len(dims)))
    R.add_upper_bound(np.array([.5]), [i])
    hist.append(['add_upper_bound', .5, i])
    for q in [qs[int(i)] for i in rng.permutation(5)]:
        hist.append(q)
        _query(R, q, hist)
    _query(P, 'radius', hist)
    return {'history': hist}


@case('C05', .5)
def query_then_change(rng, k):
    """Every cache filled, one change, every query again."""
    n = int(rng.integers(1, 4))
    A, b, _, _ = _kind(rng, n, 'u' if rng.random() < .3 else '')
    P = Polyhedron(A, b)
    _touch(P)
    ops = ['add_inequality', 'add_equality', 'add_lower_bound', 'add_upper_bound', 'add_bounds', 'normalize', 'remove_redundant_inequalities', 'intersection']
    op = ops[k % len(ops)]
    hist = [A, b, 'all queries', op]
    v = ints(rng, 0, 2, 1) / 2.
    i = int(rng.integers(n))
    if op == 'add_inequality':
        a = rconstraints(rng, n, 1)
        P.add_inequality(a, ints(rng, -8, 1, 1))
        hist.append(a)
    elif op == 'add_equality':
        if n == 1:
            raise Skip()
        P.add_equality(rconstraints(rng, n, 1, -1, 1), np.array([float(rng.integers(-6, 7))]))
    elif op == 'add_lower_bound':
        P.add_lower_bound(v + (9. if rng.random() < .3 else 0.), [i])
    elif op == 'add_upper_bound':
        P.add_upper_bound(v - (9. if rng.random() < .3 else 0.), [i])
    elif op == 'add_bounds':
        P.add_bounds(v - 1., v, [i])
    elif op == 'intersection':
        A2, b2, _, _ = _kind(rng, n, 'u' if rng.random() < .4 else '')
        P2 = Polyhedron(A2, b2)
        if rng.random() < .6:
            _touch(P2)
        P = P.intersection(P2)
        hist += [A2, b2]
    else:
        getattr(P, op)()
    for q in ('empty', 'bounded', 'radius', 'center', 'vertices'):
        _query(P, q, hist)


# ------------------------------------------------------------------ C06
@case('C06', 3)
def normalization(rng, k):
    n = int(rng.integers(1, 5))
    m, p = int(rng.integers(0, 5)), int(rng.integers(0, 4))
    A, C = ints(rng, -4, 4, m, n), ints(rng, -4, 4, p, n)
    b, d = ints(rng, -5, 5, m), ints(rng, -5, 5, p)
    tol = float(rng.choice([1e-7, 1e-3, .5, 3.]))
    if rng.random() < .4:
        A, b, C, d = A.astype(int), b.astype(int), C.astype(int), d.astype(int)
    elif rng.random() < .6:
        for X in (A, C):
            if X.shape[0]:
                X[int(rng.integers(X.shape[0]))] *= float(rng.choice([1e-9, 0., 1e4, 1e-5]))
    frame = snap(A, b, C, d)
    P = Polyhedron(A, b, C, d) if p or rng.random() < .5 else Polyhedron(A, b)
    Q = Polyhedron(A, b, P.C, P.d)
    R = copy(P)
    frame += snap(Q, R)
    if rng.random() < .3:
        tol = 1e-7
        P.normalize()
    else:
        P.normalize(tol)
    for X, x, Y, y, nm in ((A, b, P.A, P.b, 'inequality'), (C, d, P.C, P.d, 'equality')):
        need(Y.shape == X.shape and y.shape == x.shape, 'normalize changes the number of rows', A=A, b=b, C=C, d=d, tol=tol)
        for i in range(X.shape[0]):
            r = np.linalg.norm(X[i])
            if r > tol:
                ok = close(Y[i], X[i] / r, 1e-9) and close(y[i], x[i] / r, 1e-9)
            else:
                ok = close(Y[i], X[i], 1e-12) and close(y[i], x[i], 1e-12)
            need(ok, 'row %d of the %s constraints is not rescaled as documented' % (i, nm), A=A, b=b, C=C, d=d, tol=tol, result=P)
    need(unchanged(frame) is None, 'normalize changed an array or polyhedron other than its own', A=A, b=b, C=C, d=d, tol=tol)
    return {'A': A, 'b': b, 'C': C, 'd': d, 'tol': tol}


# ------------------------------------------------------------------ C07
def _is_bounded(A, b, C, d):
    n = A.shape[1]
    for g in np.vstack((np.eye(n), -np.eye(n))):
        if lp(g, A, b, C, d)[0] == 'unbounded':
            return False
    return True


@case('C07', 2)
def empty_and_bounded(rng, k):
    n = int(rng.integers(1, 5))
    kind = ['', 'e', 'u', 'ue', 'x', 'xe', 'xu', 'm', 'em', 'cone'][int(rng.integers(10))]
    if kind == 'cone':
        m = int(rng.integers(1, n + 4))
        A, b = rconstraints(rng, n, m), ints(rng, -4, 4, m)
        p = int(rng.integers(0, n))
        C, d = ints(rng, -2, 2, p, n), ints(rng, -1, 1, p)
    else:
        A, b, C, d = _kind(rng, n, kind)
        if kind == 'em' and rng.random() < .4:
            # a single point
            C = np.eye(n) + np.triu(ints(rng, -1, 1, n, n), 1)
            d = ints(rng, -3, 3, n)
        sh = ints(rng, -7, 7, n)
        if rng.random() < .1:
            sh = sh * 40.
        b, d = b + A.dot(sh), d + C.dot(sh)
        if kind == 'e' and rng.random() < .3 and n > 1:
            C, d = np.vstack((C, C[:1])), np.concatenate((d, d[:1]))
        if kind == 'e' and rng.random() < .2:
            d = d + 100.
    P = _mk(A, b, C, d, rng)
    s = slack(A, b, C, d)
    if s is not None and -1e-2 < s < 1e-2:
        raise Skip()
    truth = s is None or s < 0
    if s is None and C.shape[0]:
        # the equalities alone are inconsistent: by how much
        if np.linalg.norm(C.dot(np.linalg.pinv(C).dot(d)) - d) < 1e-2:
            raise Skip()
    f = snap(P)
    first = rng.random() < .5
    if first:
        bd = P.bounded
    need(bool(P.empty) == truth, 'empty answers %s, should be %s' % (P.empty, truth), polyhedron=P)
    if not first:
        bd = P.bounded
    bt = truth or _is_bounded(A, b, C, d)
    need(bool(bd) == bt, 'bounded answers %s, should be %s' % (bd, bt), polyhedron=P)
    need(bool(P.empty) == truth and bool(P.bounded) == bt, 'a second query answers differently', polyhedron=P)
    need(unchanged(f) is None, 'the query modified the constraints', polyhedron=P)
    return {'polyhedron': P, 'empty': truth, 'bounded': bt}


# ------------------------------------------------------------------ C08
@case('C08', 2)
def chebyshev(rng, k):
    n = int(rng.integers(1, 5))
    kind = ['', 'e', 'u', 'ue', 'x', 'xe'][int(rng.integers(6))]
    A, b, C, d = _kind(rng, n, kind)
    sc = float(rng.choice([1., 1., 1., 10., 60.]))
    sh = ints(rng, -5, 5, n)
    b, d = sc * b + A.dot(sh), sc * d + C.dot(sh)
    st, rad, nr = chebyshev_oracle(A, b, C, d)
    if np.any(nr < 1e-3):
        raise Skip()
    P = _mk(A, b, C, d, rng)
    f = snap(P)
    if rng.random() < .5:
        r, c = P.radius, P.center
    else:
        c, r = P.center, P.radius
    need(unchanged(f) is None, 'the query modified the constraints', polyhedron=P)
    if st == 'unbounded':
        need(r is None and c is None, 'balls of any size fit, but radius %s and center %s are reported' % (r, c), polyhedron=P)
        return {'polyhedron': P, 'radius': None}
    need(r is not None and c is not None, 'no radius reported, should be %s' % rad, polyhedron=P)
    need(abs(r - rad) < 1e-5, 'radius %s, should be %s' % (r, rad), polyhedron=P)
    need(np.shape(c) == (n,) and viol(A, b - nr * r, C, d, c) < 1e-5, 'the ball at the center does not fit', polyhedron=P, center=c, radius=r)
    s = slack(A, b, C, d)
    if abs(rad) > 1e-4:
        need((r < 0) == (s < 0), 'the sign of the radius does not tell consistency', polyhedron=P, radius=r)
    return {'polyhedron': P, 'radius': r}


@case('C08', .2)
def chebyshev_implied_row(rng, k):
    """A row proportional to an equality takes no part in the answer (its projection is a row of rounding errors)."""
    p, q = (2., 9.) if k == 0 else ints(rng, 1, 11, 2)
    A, b, C, d = np.vstack((np.eye(2), -np.eye(2), [[p, q]])), np.array([2., 2., 2., 2., 1.]), np.array([[p, q]]), np.array([1.])
    st, rad, nr = chebyshev_oracle(A[:4], b[:4], C, d)
    P = Polyhedron(A, b, C, d)
    need(abs(P.radius - rad) < 1e-5, 'radius %s, should be %s' % (P.radius, rad), polyhedron=P)
    need(viol(A[:4], b[:4] - nr * P.radius, C, d, P.center) < 1e-5, 'the ball at the center does not fit', polyhedron=P, center=P.center)
    return {'polyhedron': P, 'radius': P.radius}


# ------------------------------------------------------------------ C09
@case('C09', 1.5)
def redundancy(rng, k):
    n = int(rng.integers(1, 5))
    kind = ['', '', 'e', 'u', 'x', 'ue'][int(rng.integers(6))]
    A, b, C, d = _kind(rng, n, kind)
    # add redundant, duplicated and scaled rows in random places
    for _ in range(int(rng.integers(0, 4))):
        i = int(rng.integers(A.shape[0]))
        t = float(rng.choice([1., 2., .5]))
        A = np.vstack((A, t * A[i]))
        b = np.concatenate((b, [t * b[i] + float(rng.choice([0., 0., 1.]))]))
    q = rng.permutation(A.shape[0])
    A, b = A[q], b[q]
    if rng.random() < .4:
        sc = float(rng.choice([1., 5., 40.]))
        sh = ints(rng, -5, 5, n)
        b, d = sc * b + A.dot(sh), sc * d + C.dot(sh)
    s = slack(A, b, C, d)
    if s is None or -1e-2 < s < 1e-2:
        raise Skip()
    P = _mk(A, b, C, d, rng)
    f = snap(P)
    mf = P.minimal_facets()
    need(unchanged(f) is None, 'minimal_facets modified the polyhedron', polyhedron=P)
    if s < 0:
        need(mf is None, 'minimal_facets of an empty polyhedron is %s' % (mf,), polyhedron=P)
        need(raises(ValueError, P.remove_redundant_inequalities), 'redundancy removal accepts an empty polyhedron', polyhedron=P)
        need(unchanged(f) is None, 'a refused redundancy removal altered the polyhedron', polyhedron=P)
        return
    need(mf is not None, 'minimal_facets of a non-empty polyhedron is None', polyhedron=P)
    mf = [int(i) for i in mf]
    need(len(set(mf)) == len(mf) and all(0 <= i < len(b) for i in mf), 'minimal_facets is no selection of rows', polyhedron=P, facets=mf)
    # the set is unchanged: every dropped row is implied by the kept ones
    for i in range(len(b)):
        if i in mf:
            o = [j for j in mf if j != i]
            st, _, v = lp(-A[i], np.vstack((A[o].reshape(-1, n), A[i:i + 1])), np.concatenate((b[o], [b[i] + 1.])), C, d)
            e = -v - b[i]
            if 1e-9 < abs(e) < 1e-4:
                raise Skip()
            need(e > 1e-5, 'facet %d is still redundant' % i, polyhedron=P, facets=mf)
        else:
            st, _, v = lp(-A[i], A[mf].reshape(-1, n), b[mf], C, d)
            need(st == 'opt' and -v - b[i] <= 1e-5, 'dropping facet %d changes the set' % i, polyhedron=P, facets=mf)
    P.remove_redundant_inequalities()
    need(close(P.A, A[mf].reshape(-1, n)) and close(P.b, b[mf]) and close(P.C, C) and close(P.d, d), 'redundancy removal does not keep the rows of the minimal facets', A=A, b=b, C=C, d=d, facets=mf, result=P)
    return {'A': A, 'b': b, 'C': C, 'd': d, 'facets': mf}


# ------------------------------------------------------------------ C10
def _hull_equal(V, W):
    """Support functions of two finite point sets agree."""
    V, W = np.vstack(V), np.vstack(W)
    for _ in range(12):
        g = np.random.standard_normal(V.shape[1])
        a, b = np.max(V.dot(g)), np.max(W.dot(g))
        if abs(a - b) > 1e-4 * (1 + abs(b)):
            return False
    return True


@case('C10', .8)
def vertices(rng, k):
    n = int(rng.integers(1, 4))
    eq = n > 1 and rng.random() < .35
    A, b = rpolytope(rng, n)
    C, d = np.zeros((0, n)), np.zeros(0)
    if eq:
        C, d = reqs(rng, n, int(rng.integers(1, n)))
    sh = ints(rng, -5, 5, n)
    b, d = b + A.dot(sh), d + C.dot(sh)
    P = _mk(A, b, C, d)
    if eq:
        N = sl.null_space(C)
        x0 = np.linalg.lstsq(C, d, rcond=None)[0]
        if np.any(np.linalg.norm(A.dot(N), axis=1) < 1e-3):
            raise Skip()
        W = [x0 + N.dot(w) for w in vertices_oracle(A.dot(N), b - A.dot(x0))]
    else:
        W = vertices_oracle(A, b)
    f = snap(P)
    V = P.vertices
    need(V is not None, 'no vertices reported for a polytope', polyhedron=P)
    need(all(np.shape(v) == (n,) for v in V), 'vertices have the wrong size', polyhedron=P)
    need(_hull_equal(V, W), 'the vertices do not span the polytope', polyhedron=P, vertices=list(V), expected=W)
    for v in V:
        need(viol(A, b, C, d, v) < 1e-5, 'a vertex lies outside the polytope', polyhedron=P, vertex=v)
    need(unchanged(f) is None, 'vertices modified the constraints', polyhedron=P)
    return {'polyhedron': P, 'vertices': list(V)}


@case('C10', .8)
def projection(rng, k):
    n = int(rng.integers(2, 5))
    q = int(rng.integers(1, min(n, 3) + 1))
    dims = [int(i) for i in rng.permutation(n)[:q]]
    A, b = rpolytope(rng, n)
    sh = ints(rng, -3, 3, n)
    b = b + A.dot(sh)
    if rng.random() < .25:
        A, b = A.astype(int), b.astype(int)
    P = Polyhedron(A, b)
    f = snap(P, A, b)
    if rng.random() < .3:
        _touch(P)
    R = P.project_to(dims)
    need(unchanged(f) is None, 'project_to modified the polytope', polyhedron=P, dims=dims)
    need(R.A.shape[1] == q, 'projection has the wrong dimension', polyhedron=P, dims=dims)
    o = [i for i in range(n) if i not in dims]
    for t in range(12):
        if t % 2:
            y = np.array([rng.uniform(-8, 8) for _ in dims])
        else:
            g = np.random.standard_normal(n)
            st, x, v = lp(g, A, b)
            y = x[dims] + (x[dims] - sh[dims]) * float(rng.choice([-.2, -.02, .02, .1, 0.]))
        s = slack(A[:, o], b - A[:, dims].dot(y)) if o else -viol(A, b, np.zeros((0, n)), np.zeros(0), np.array([y[dims.index(i)] for i in range(n)]))
        if s is None or abs(s) < 1e-4:
            continue
        inside = bool(np.all(R.A.dot(y) - R.b <= 1e-6))
        need(inside == (s > 0), 'projection and completability disagree at a point', polyhedron=P, dims=dims, point=y)
    # vertices reported for the projection span it
    V = R.vertices
    need(V is not None, 'projection without vertices', polyhedron=P, dims=dims)
    for _ in range(8):
        g = np.random.standard_normal(q)
        G = np.zeros(n)
        G[dims] = g
        st, x, v = lp(-G, A, b)
        need(abs(np.max(np.vstack(V).reshape(-1, q).dot(g)) + v) < 1e-4 * (1 + abs(v)), 'vertices of the projection do not span it', polyhedron=P, dims=dims)
    return {'polyhedron': P, 'dims': dims}


@case('C10', .3)
def refused_projection(rng, k):
    n = int(rng.integers(2, 4))
    for kind in ('u', 'x', 'e'):
        A, b, C, d = _kind(rng, n, kind)
        P = _mk(A, b, C, d)
        if kind == 'u' and _is_bounded(A, b, C, d):
            continue
        f = snap(P)
        need(raises(ValueError, P.project_to, [0]), 'projection accepts %s input' % {'u': 'an unbounded', 'x': 'an empty', 'e': 'an equality constrained'}[kind], polyhedron=P)
        need(unchanged(f) is None, 'a refused projection modified the polyhedron', polyhedron=P)
    A, b, C, d = _kind(rng, n, 'u')
    if not _is_bounded(A, b, C, d):
        need(Polyhedron(A, b).vertices is None, 'vertices reported for an unbounded polyhedron', A=A, b=b)


@case('C10', .3)
def convex_hull(rng, k):
    n = int(rng.integers(2, 4))
    pts = [ints(rng, -4, 4, n) for _ in range(n + 1 + int(rng.integers(1, 5)))]
    if np.linalg.matrix_rank(np.vstack(pts) - pts[0]) < n:
        raise Skip()
    P = Polyhedron.from_convex_hull(pts)
    for p in pts:
        need(np.all(P.A.dot(p) - P.b < 1e-6), 'a point of the list is not in the hull', points=pts)
    for _ in range(6):
        g = np.random.standard_normal(n)
        st, x, v = lp(-g, P.A, P.b)
        need(st == 'opt' and abs(-v - np.max(np.vstack(pts).dot(g))) < 1e-5, 'the hull is larger than the points', points=pts)


# ------------------------------------------------------------------ C23
@case('C23', 1)
def nullspace(rng, k):
    m, n = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    if k % 10 == 3:
        Z = nullspace_basis(np.zeros((0, n)))
        need(Z.shape == (n, n) and close(Z.T.dot(Z), np.eye(n), 1e-9), 'the nullspace of a matrix without rows is the whole space', n=n, Z=Z)
    r = int(rng.integers(0, min(m, n) + 1))
    A = ints(rng, -3, 3, m, r).dot(ints(rng, -3, 3, r, n)) if rng.random() < .6 else ints(rng, -3, 3, m, n)
    sv = np.linalg.svd(A)[1]
    rank = int(np.sum(sv > 1e-6))
    scale = 10. ** int(rng.integers(-9, 7)) if rng.random() < .25 else 1.
    if scale != 1.:
        Z = nullspace_basis(scale * A)
        need(Z.shape == (n, n - rank), 'nullspace basis has %s columns for a matrix of rank %d' % (Z.shape, rank), A=scale * A)
        need(close(A.dot(Z), np.zeros((m, n - rank)), 1e-6), 'nullspace vectors are not mapped to zero', A=scale * A, Z=Z)
    s = snap(A)
    Z = nullspace_basis(A)
    need(Z.shape == (n, n - rank), 'nullspace basis has %s columns for a matrix of rank %d' % (Z.shape, rank), A=A)
    need(close(A.dot(Z), np.zeros((m, n - rank)), 1e-7), 'nullspace vectors are not mapped to zero', A=A, Z=Z)
    need(close(Z.T.dot(Z), np.eye(n - rank), 1e-7), 'nullspace basis is not orthonormal', A=A, Z=Z)
    need(unchanged(s) is None, 'nullspace_basis modified its input', A=A)
    i = linearly_independent_rows(A)
    need(unchanged(s) is None, 'linearly_independent_rows modified its input', A=A)
    need(len(i) == 0 or np.linalg.matrix_rank(A[i]) == len(i), 'rows reported independent are dependent', A=A, rows=[int(j) for j in i])
    need(list(i) == sorted(set(i)), 'indices of the independent rows are not increasing', A=A, rows=[int(j) for j in i])
    if rank == m and sv.min() > 1e-2:
        need(list(i) == list(range(m)), 'independent rows left out', A=A, rows=[int(j) for j in i])
    return {'A': A}


@case('C23', 1)
def plane(rng, k):
    n = int(rng.integers(1, 5))
    pts = [ints(rng, -4, 4, n) + (rng.normal(size=n) * .1 if rng.random() < .5 else 0.) for _ in range(n)]
    if rng.random() < .4 and n > 1:
        pts = [p - pts[0] for p in pts]          # a plane through the origin
    V = np.vstack(pts)
    if n > 1 and np.linalg.svd(V[1:] - V[0])[1].min() < .2:
        raise Skip()
    s = snap(pts)
    a, d = plane_through_points(pts)
    need(unchanged(s) is None, 'plane_through_points modified its input', points=pts)
    need(abs(np.linalg.norm(a) - 1.) < 1e-6, 'normal is not of unit length', points=pts, a=a)
    need(d >= -1e-6, 'negative offset', points=pts, d=d)
    need(all(abs(a.dot(p) - d) < 1e-4 for p in pts), 'a point is off the plane', points=pts, a=a, d=d)
    return {'points': pts}


@case('C23', 2)
def rows(rng, k):
    m, n = int(rng.integers(1, 6 if rng.random() < .8 else 15)), int(rng.integers(1, 4))
    A = rconstraints(rng, n, m)
    if rng.random() < .5:
        A[int(rng.integers(m))] = A[0]
    B = A[rng.permutation(m)].copy()
    norm = bool(rng.random() < .5)
    r = int(rng.integers(5))
    if r == 1:
        B = B * ints(rng, 1, 3, m, 1)
    elif r == 2:
        B[int(rng.integers(m))] = rconstraints(rng, n, 1)[0]
    elif r == 3:
        B = -B
    elif r == 4:
        B = np.vstack((B, B[:1])) if rng.random() < .5 else B[:-1].reshape(-1, n)
    if rng.random() < .3 and r != 1:
        A, B = A.astype(int), B.astype(int)

    def canon(M):
        M = M / np.linalg.norm(M, axis=1, keepdims=True) if norm else M * 1.
        return sorted([tuple(np.round(x + 0., 6) + 0.) for x in M])
    truth = A.shape == B.shape and canon(A) == canon(B)
    s = snap(A, B)
    ans = same_rows(A, B, norm) if rng.random() < .5 or not norm else same_rows(A, B)
    need(bool(ans) == truth, 'same_rows answers %s, should be %s' % (ans, truth), A=A, B=B, normalize=norm)
    need(unchanged(s) is None, 'same_rows modified its inputs', A=A, B=B)
    if not norm and B.shape[0]:
        va, vb = [a for a in A], [b for b in B]
        need(bool(same_vectors(va, vb)) == truth, 'same_vectors disagrees', A=A, B=B)
        need(raises(ValueError, same_vectors, [A], [B]), 'same_vectors accepts matrices', A=A, B=B)
        need(raises(ValueError, same_vectors, va, [B]), 'same_vectors accepts matrices in the second list', A=A, B=B)
    return {'A': A, 'B': B, 'normalize': norm, 'answer': truth}
