"""Run-time contract checking on the real code: generators, independent oracles and the case runner.

Runs under the interpreter of the repository (/opt/venv/bin/python) with /repo on the path.  Only the public
interface of pympc is used; oracles use scipy's HiGHS linear programming and own code, never pympc.
"""
import itertools
import json
import signal
import time
import traceback
import warnings
import numpy as np
from scipy.optimize import linprog, nnls
try:
    from scipy.spatial import QhullError
except ImportError:
    from scipy.spatial.qhull import QhullError
import scipy.linalg as sl

warnings.filterwarnings('ignore')


class Bad(Exception):
    """A contract does not hold on the given input."""

    def __init__(self, msg, **inputs):
        Exception.__init__(self, msg)
        self.msg = msg
        self.inputs = inputs


class Skip(Exception):
    pass


CASES = {}


def case(pid, weight=1.0):
    def deco(f):
        CASES.setdefault(pid, []).append((f.__name__, f, weight))
        return f
    return deco


def need(cond, msg, **inputs):
    if not cond:
        raise Bad(msg, **inputs)


def close(a, b, tol=1e-6):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(np.all(np.abs(a - b) <= tol * (1. + np.abs(b))))


def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    except Exception:
        return False
    return False


def show(x):
    if isinstance(x, np.ndarray):
        return {'ndarray': x.tolist(), 'dtype': str(x.dtype), 'shape': list(x.shape)}
    if isinstance(x, dict):
        return {str(k): show(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [show(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    if hasattr(x, 'A') and hasattr(x, 'b'):
        return {'Polyhedron': [show(getattr(x, k)) for k in 'AbCd']}
    return repr(x)


# ---------------------------------------------------------------- oracles
def lp(f, A, b, C=None, d=None):
    """min f x st A x <= b, C x = d.  Returns (status, x, value); status in opt, infeasible, unbounded."""
    f = np.asarray(f, float)
    A = np.asarray(A, float).reshape(-1, f.size)
    kw = {}
    if A.shape[0]:
        kw.update(A_ub=A, b_ub=np.asarray(b, float))
    if C is not None and np.asarray(C).shape[0]:
        kw.update(A_eq=np.asarray(C, float), b_eq=np.asarray(d, float))
    if not kw:
        if np.any(f):
            return 'unbounded', None, None
        return 'opt', np.zeros(f.size), 0.
    r = linprog(f, bounds=(None, None), method='highs', options={'presolve': False}, **kw)
    if r.status == 0:
        return 'opt', r.x, r.fun
    if r.status == 2:
        return 'infeasible', None, None
    if r.status == 3:
        return 'unbounded', None, None
    # HiGHS may answer 4 (unbounded or infeasible)
    if np.any(f):
        s = lp(np.zeros(f.size), A, b, C, d)[0]
        return ('unbounded' if s == 'opt' else 'infeasible'), None, None
    raise Skip()


def feasible(A, b, C=None, d=None):
    return lp(np.zeros(np.asarray(A).shape[1]), A, b, C, d)[0] == 'opt'


def slack(A, b, C=None, d=None):
    """max s <= 1 with A x + s <= b (s < 0: infeasible by that much); None if the equalities alone are inconsistent."""
    A = np.asarray(A, float)
    m, n = A.shape
    A2 = np.vstack((np.hstack((A, np.ones((m, 1)))), np.hstack((np.zeros((1, n)), np.ones((1, 1))))))
    b2 = np.concatenate((np.asarray(b, float), [1.]))
    C2 = None
    if C is not None and np.asarray(C).shape[0]:
        C2 = np.hstack((C, np.zeros((np.asarray(C).shape[0], 1))))
    st, x, v = lp(np.concatenate((np.zeros(n), [-1.])), A2, b2, C2, d)
    return None if st != 'opt' else -v


def qp(H, f, A, b, C=None, d=None):
    """Strictly convex QP by projection in the dual (own code).  Returns (x, value) or None if infeasible."""
    n = f.size
    A = np.asarray(A, float).reshape(-1, n)
    b = np.asarray(b, float)
    if C is not None and C.shape[0]:
        A = np.vstack((A, C, -C))
        b = np.concatenate((b, d, -d))
    s = slack(A, b)
    if s is None or s < -1e-6:
        return None
    L = np.linalg.cholesky(H)
    Li = np.linalg.inv(L)
    # y = L' x + L^-1 f : min .5 |y|^2 st G y <= h
    G = A.dot(Li.T)
    h = b + A.dot(Li.T.dot(Li.dot(f)))
    # least distance programming (Lawson and Hanson)
    E = np.vstack((-G.T, -h.reshape(1, -1)))
    e = np.concatenate((np.zeros(n), [1.]))
    v = nnls(E, e, maxiter=100 * (n + A.shape[0] + 10))[0] if A.shape[0] else np.zeros(0)
    res = E.dot(v) - e
    if abs(res[-1]) < 1e-9:
        raise Skip()
    best = -res[:n] / res[-1]
    if np.any(G.dot(best) - h > 1e-5 * (1 + np.abs(h))):
        raise Skip()
    x = Li.T.dot(best - Li.dot(f))
    return x, .5 * x.dot(H).dot(x) + f.dot(x)


def qp_value_check(H, f, A, b, x, tol=1e-4):
    """Is x the optimum of the QP: solve the KKT multiplier problem by nnls."""
    g = H.dot(x) + f
    act = np.abs(A.dot(x) - b) < 1e-5 * (1 + np.abs(b))
    if np.any(A.dot(x) - b > tol * (1 + np.abs(b))):
        return False
    if not np.any(act):
        return bool(np.linalg.norm(g) < tol * (1 + np.linalg.norm(f)))
    v, r = nnls(A[act].T, -g)
    return bool(r < tol * (1 + np.linalg.norm(f) + np.linalg.norm(g)))


def member(P, x, tol=1e-9):
    """Own evaluation of membership of x in the polyhedron object P (public attributes A, b, C, d)."""
    return bool(np.all(np.asarray(P.A, float).dot(x) - P.b <= tol)) and bool(np.all(np.abs(np.asarray(P.C, float).dot(x) - P.d) <= tol))


def viol(A, b, C, d, x):
    """Largest violation of the constraints at x (negative: strictly inside the inequalities)."""
    v = [-np.inf]
    if len(b):
        v.append(float(np.max(A.dot(x) - b)))
    if len(d):
        v.append(float(np.max(np.abs(C.dot(x) - d))))
    return max(v)


def vertices_oracle(A, b, tol=1e-7):
    m, n = A.shape
    out = []
    for c in itertools.combinations(range(m), n):
        M = A[list(c)]
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        x = np.linalg.solve(M, b[list(c)])
        if np.all(A.dot(x) - b <= tol) and not any(np.allclose(x, y, atol=1e-6) for y in out):
            out.append(x)
    return out


def chebyshev_oracle(A, b, C=None, d=None):
    """(status, radius): largest ball in {A x <= b} within the affine space C x = d."""
    A = np.asarray(A, float)
    m, n = A.shape
    if C is not None and C.shape[0]:
        N = sl.null_space(C)
        nr = np.linalg.norm(A.dot(N), axis=1)
    else:
        nr = np.linalg.norm(A, axis=1)
    A2 = np.hstack((A, nr.reshape(-1, 1)))
    C2 = None if C is None or not C.shape[0] else np.hstack((C, np.zeros((C.shape[0], 1))))
    st, x, v = lp(np.concatenate((np.zeros(n), [-1.])), A2, b, C2, d)
    return st, (None if v is None else -v), nr


# ---------------------------------------------------------------- generators
def ints(rng, lo, hi, *shape):
    return rng.integers(lo, hi + 1, size=shape).astype(float)


def rbox(rng, n):
    lo = -ints(rng, 1, 4, n)
    hi = ints(rng, 1, 4, n)
    return np.vstack((np.eye(n), -np.eye(n))), np.concatenate((hi, -lo))


def rpolytope(rng, n, extra=None, shuffle=True):
    """Bounded full-dimensional polytope with the origin in its interior."""
    A, b = rbox(rng, n)
    k = int(rng.integers(0, 4)) if extra is None else extra
    if k:
        E = ints(rng, -3, 3, k, n)
        E = E[np.any(E != 0, axis=1)]
        A = np.vstack((A, E))
        b = np.concatenate((b, ints(rng, 1, 6, E.shape[0])))
    if shuffle:
        p = rng.permutation(A.shape[0])
        A, b = A[p], b[p]
    return A, b


def rconstraints(rng, n, m, lo=-3, hi=3):
    A = ints(rng, lo, hi, m, n)
    for i in range(m):
        if not np.any(A[i]):
            A[i, rng.integers(n)] = 1.
    return A


def reqs(rng, n, p, x0=None):
    """p independent equalities through x0."""
    for _ in range(50):
        C = ints(rng, -2, 2, p, n)
        if p == 0 or np.linalg.matrix_rank(C) == p and np.linalg.svd(C)[1].min() > .3:
            x0 = np.zeros(n) if x0 is None else x0
            return C, C.dot(x0)
    raise Skip()


def spd(rng, n, scale=1.):
    M = rng.normal(size=(n, n))
    return scale * (M.dot(M.T) / n + np.eye(n) * rng.uniform(.5, 1.5))


def stable(rng, n, rho=None):
    A = rng.normal(size=(n, n))
    r = np.max(np.abs(np.linalg.eigvals(A)))
    return A / r * (rng.uniform(.3, .9) if rho is None else rho)


def snap(*objs):
    """Snapshot of arrays (nested in lists, dicts, polyhedra) for frame conditions."""
    out = []

    def go(o, path):
        if isinstance(o, np.ndarray):
            out.append((path, o, o.copy(), o.dtype))
        elif isinstance(o, (list, tuple)):
            for i, v in enumerate(o):
                go(v, path + '[%d]' % i)
        elif isinstance(o, dict):
            for k, v in o.items():
                go(v, path + '[%r]' % k)
        elif hasattr(o, 'A') and hasattr(o, 'b') and hasattr(o, 'C'):
            for k in 'AbCd':
                a = getattr(o, k)
                out.append((path + '.' + k, (o, k), np.array(a, copy=True), a.dtype))
        elif hasattr(o, 'A') and hasattr(o, 'B'):
            for k in ('A', 'B', 'c'):
                if hasattr(o, k):
                    a = getattr(o, k)
                    out.append((path + '.' + k, (o, k), np.array(a, copy=True), a.dtype))
    for n, o in enumerate(objs):
        go(o, 'arg%d' % n)
    return out


def unchanged(s):
    """None if nothing changed, else the path that did."""
    for path, o, c, dt in s:
        cur = getattr(*o) if isinstance(o, tuple) else o
        if cur.shape != c.shape or cur.dtype != dt or not np.array_equal(cur, c):
            return path
    return None


# ---------------------------------------------------------------- runner
CASE_LIMIT = 45     # seconds; the calls take milliseconds


def _alarm(signum, frame):
    raise Bad('the call does not return (no answer within %d s)' % CASE_LIMIT)


signal.signal(signal.SIGALRM, _alarm)


def run_property(pid, seed, budget_s, n_target, only=None, index=None):
    """Runs the cases of a property round robin.  Returns a result dictionary."""
    t0 = time.time()
    res = {'property': pid, 'evaluations': 0, 'skipped': 0, 'by_case': {}, 'failures': [], 'errors': [], 'samples': []}
    cases = [c for c in CASES.get(pid, []) if only is None or c[0] == only]
    failed = set()
    i = 0 if index is None else index
    while True:
        alive = False
        for name, f, w in cases:
            if name in failed or (i >= n_target * w and index is None):
                continue
            if time.time() - t0 > budget_s:
                break
            alive = True
            cseed = [int(seed), sum(ord(c) * (k + 1) for k, c in enumerate(pid + name)) % 1000003, i]
            rng = np.random.default_rng(cseed)
            np.random.seed(cseed[1] % 100000 + i)
            try:
                signal.alarm(CASE_LIMIT)
                s = f(rng, i)
                res['evaluations'] += 1
                res['by_case'][name] = res['by_case'].get(name, 0) + 1
                if s is not None and len(res['samples']) < 2 * len(cases) and sum(1 for x in res['samples'] if x['case'] == name) < 1:
                    res['samples'].append({'case': name, 'index': i, 'sample': show(s)})
            except Skip:
                res['skipped'] += 1
            except QhullError:
                res['qhull'] = res.get('qhull', 0) + 1      # numerical failure of a trusted dependency
            except Bad as e:
                res['failures'].append({'case': name, 'seed': int(seed), 'index': i, 'message': e.msg,
                                        'inputs': {k: show(v) for k, v in e.inputs.items()}})
                failed.add(name)
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                inrepo = [fr for fr in tb if '/pympc/' in fr.filename]
                rec = {'case': name, 'seed': int(seed), 'index': i,
                       'message': 'unexpected %s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-3000:]}
                # an exception that leaves the code under test on a legal input is a violation; so is a result on
                # which the contract cannot be evaluated (wrong type or shape)
                if not inrepo:
                    rec['message'] = 'contract cannot be evaluated on the result: ' + rec['message']
                if isinstance(e, MemoryError):
                    res['errors'].append(rec)
                else:
                    res['failures'].append(rec)
                failed.add(name)
            finally:
                signal.alarm(0)
        i += 1
        if not alive or index is not None or time.time() - t0 > budget_s:
            break
    res['wall_s'] = time.time() - t0
    return res
