"""Shared specification vocabulary."""
from vc.session import *
from vc.npmodel import FN, METH, val, wrap
from vc import npmodel as nm, npfuncs as nf, rewrite as rw

GEO = 'pympc.geometry.polyhedron'
GUT = 'pympc.geometry.utils'
PRG = 'pympc.optimization.programs'
NNL = 'pympc.optimization.solvers.pnnls'
GRB = 'pympc.optimization.solvers.gurobi'
PAR = 'pympc.optimization.parametric_programs'
DTS = 'pympc.dynamics.discrete_time_systems'
DSM = 'pympc.dynamics.discretization_methods'
DUT = 'pympc.dynamics.utils'
CTL = 'pympc.control.controllers'


class Stale(object):
    """A value cached before the operation under verification, or None."""
    immutable = True

    def __init__(self, k, t=''):
        self.k, self.t = k, t
        if k in ('_empty', '_bounded'):
            self.holds = lambda: Pred('%s of %s' % (k, t))

    def known(self):
        if self.t is None:
            return TRUE
        return Pred('%s of %s is known' % (self.k, self.t))


CACHES = ('_empty', '_bounded', '_radius', '_center', '_vertices')


def polyhedron(s, t, n, m=None, p=None, caches=False, dtype='float'):
    """Symbolic polyhedron {x : A x <= b, C x = d} of the repository's class, with arbitrary caches when asked."""
    m = s.dim('m' + t) if m is None else P(m)
    p = s.dim('p' + t) if p is None else P(p)
    at = {'A': s.arr('A' + t, m, n, dtype=dtype), 'b': s.arr('b' + t, m, dtype=dtype), 'C': s.arr('C' + t, p, n, dtype=dtype),
          'd': s.arr('d' + t, p, dtype=dtype)}
    for k in CACHES:
        at[k] = Stale(k, t) if caches else None
    return s.obj(GEO, 'Polyhedron', **at)


def rows_le(A, x, b, slack=0):
    """A x <= b + slack, row by row (Vals)."""
    r = ar.elementwise(lambda u, v: Le(u, v + slack), ar.dot(A, x), b, boolean=True)
    return ar.forall_over(r.dims, r.at)


def rows_eq(A, x, b):
    r = ar.elementwise(lambda u, v: Eq(u, v), ar.dot(A, x), b, boolean=True)
    return ar.forall_over(r.dims, r.at)


def v(o, k):
    a = o.attrs[k]
    if isinstance(a, Arr):
        return a.val()
    raise Unsupported('attribute %s is not an array' % k)


def member(o, x, snap=None):
    if snap is not None:
        A, b, C, d = snap
    else:
        A, b, C, d = v(o, 'A'), v(o, 'b'), v(o, 'C'), v(o, 'd')
    x = x.val() if isinstance(x, Arr) else x
    return And(rows_le(A, x, b), rows_eq(C, x, d))


def snap(o):
    return v(o, 'A'), v(o, 'b'), v(o, 'C'), v(o, 'd')


def caches_clear(s, o, name='derived attributes cleared'):
    for k in CACHES:
        if o.attrs.get(k, 0) is not None:
            s.fail(name, '%s keeps its old value' % k)
        else:
            s.prove(name + ': ' + k, TRUE)


def frame_obj(s, o, sn, name):
    """The polyhedron o still has the attributes of the snapshot, and its caches were not touched."""
    for k, w in zip('AbCd', sn):
        s.prove('%s: %s unchanged' % (name, k), val_eq(w, v(o, k)))


def proves_iff(s, name, a, b):
    s.prove(name + ' (only if)', Implies(a, b))
    s.prove(name + ' (if)', Implies(b, a))


# ------------------------------------------------------------------ rules about finite sums (theorems of real arithmetic)
def sum_nonneg(s, name, dims, fn, use=None):
    """Every summand is nonnegative (proved), hence the sum is.  use: the sum as the caller writes it (proved equal)."""
    ok = s.prove(name + ': every summand nonnegative', ar.forall_over(dims, lambda *l: Le(0, fn(*l))))
    tot = nf.reduce_sum(Val(dims, fn), None)
    if ok:
        nm.rule('Rules.lean sum_nonneg_rule', 'a sum of nonnegative terms is nonnegative')
        s.assume(Le(0, tot))
    return tot


def sum_zero(s, name, dims, fn):
    """Nonnegative summands with sum zero (both proved) are all zero."""
    ok = s.prove(name + ': every summand nonnegative', ar.forall_over(dims, lambda *l: Le(0, fn(*l))))
    tot = nf.reduce_sum(Val(dims, fn), None)
    ok = s.prove(name + ': the sum is zero', Eq(tot, 0)) and ok
    if ok:
        nm.rule('Rules.lean sum_zero_rule', 'nonnegative terms with sum zero are zero')
        s.assume(ar.forall_over(dims, lambda *l: Eq(fn(*l), 0)))
    return ok


def weighted_zero(s, name, z, w):
    """A vector that is zero (proved) has zero product with every other."""
    ok = s.prove(name, all_eq0(z))
    if ok:
        nm.rule('Rules.lean dot_zero_rule', 'the zero vector has zero products')
        s.assume(Eq(ar.dot(z, w), 0))
    return ok


def rows_zero(s, name, M, z):
    """A vector that is zero (proved) is mapped to zero."""
    ok = s.prove(name, all_eq0(z))
    if ok:
        nm.rule('Rules.lean dot_zero_rule', 'the zero vector has zero products')
        s.assume(all_eq0(ar.dot(M, z)))
    return ok


def sq_sum(w):
    """Sum of the squares of a vector."""
    return nf.reduce_sum(Val(w.dims, lambda *l: T(w.at(*l)) * T(w.at(*l))), None)


def squares_nonneg(s, w):
    nm.rule('Rules.lean squares_nonneg_rule', 'a sum of squares is nonnegative')
    s.assume(Le(0, sq_sum(w)))


def mul_nonneg(s, name, dims, f, g):
    """Products of nonnegative factors (proved) are nonnegative."""
    ok = s.prove(name, And(ar.forall_over(dims, lambda *l: Le(0, f(*l))), ar.forall_over(dims, lambda *l: Le(0, g(*l)))))
    if ok:
        nm.rule('Rules.lean mul_nonneg_rule', 'products of nonnegative factors are nonnegative')
        s.assume(ar.forall_over(dims, lambda *l: Le(0, T(f(*l)) * T(g(*l)))))
    return ok


def T_(v_):
    """Transpose."""
    return Val([v_.dims[1], v_.dims[0]], lambda a, b: v_.at(b, a))


def neg(v_):
    return Val(v_.dims, lambda *l: -T(v_.at(*l)))


def sub_(a, b):
    return ar.elementwise(lambda x, y: x - y, a, b)


def all_le(a, b=None):
    if b is None:
        return ar.forall_over(a.dims, lambda *l: Le(a.at(*l), 0))
    r = ar.elementwise(lambda x, y: Le(x, y), a, b, boolean=True)
    return ar.forall_over(r.dims, r.at)


def all_eq0(a):
    return ar.forall_over(a.dims, lambda *l: Eq(a.at(*l), 0))


def as_list(x):
    return nm.aslist(x)


def index_list(s, what, l, n):
    """Every element of the list is an index below n, and none is repeated."""
    gen = []
    for sg in nm.aslist(l).segs:
        if sg[0] == 'one':
            x = nm.num(sg[1]) if isinstance(sg[1], Arr) else sg[1]
            if not nm.is_int(x):
                raise Unsupported('list of something else than integers')
            gen.append((None, lambda k, x=x: P(x)))
        else:
            if not nm.is_int(sg[3]):
                raise Unsupported('list of something else than integers')
            gen.append((P(sg[1]), lambda k, sg=sg: P(sg[3]).subst({sg[2]: k})))
    for a, (na, ga) in enumerate(gen):
        k = V(fresh('k', na)) if na is not None else None
        s.prove(what + ': indices', And(ILe(0, ga(k)), ILt(ga(k), n)))
        if na is not None:
            k2 = V(fresh('k', na))
            s.prove(what + ': no repetition', Implies(ILt(k, k2), Not(IEq(ga(k), ga(k2)))))
        for nb, gb in gen[a + 1:]:
            k2 = V(fresh('k', nb)) if nb is not None else None
            s.prove(what + ': no repetition', Not(IEq(ga(k), gb(k2))))


def in_list(s, x, l):
    """Formula: the integer is an element of the list."""
    return ip.fm(nm.contains(s.it, I(P(x)), l))
