"""C21: multi-parametric quadratic programs."""
from ._lib import *
from .dynamics import addv, item, sc
from .geometry_sets import index_list
from vc import invloop
from ._solvers import qp_contract, point
from .control import quad, dget, mpqp_value, single_factor


def mpqp(s):
    nu, nx, m = s.dim('nu', 1), s.dim('nx', 1), s.dim('m')
    H = DObj({'uu': s.arr('Huu', nu, nu, sym=True), 'ux': s.arr('Hux', nu, nx), 'xx': s.arr('Hxx', nx, nx, sym=True)})
    f = DObj({'u': s.arr('fu', nu), 'x': s.arr('fx', nx)})
    A = DObj({'u': s.arr('Au', m, nu), 'x': s.arr('Ax', m, nx)})
    b = s.arr('b', m)
    g = s.real('g')
    s.c.nonsing.append(lambda w: True)
    r = s.new(s.cls(PAR, 'MultiParametricQuadraticProgram'), H, f, g, A, b)
    if not r.ok:
        raise Unsupported('constructor')
    return r.value, nu, nx, m


def pd(o, a, k):
    return val(dget(o.attrs[a], k))


def constraint(o, x, u):
    """A_u u + A_x x - b as a vector."""
    return addv(ar.dot(pd(o, 'A', 'u'), u), ar.dot(pd(o, 'A', 'x'), x), sc(val(o.attrs['b']), T(-1)))


def full_cost(o, x, u):
    return mpqp_value(o, x, u)


@scenario('C21', 'constructor', [PAR + ':MultiParametricQuadraticProgram.__init__'])
def _(s):
    o, nu, nx, m = mpqp(s)
    Hi = val(o.attrs['Huu_inv'])
    eye = Val([D(nu), D(nu)], lambda a, b: Term.delta(a[1] - b[1]))
    s.prove('stores the inverse of H_uu', val_eq(ar.dot(Hi, pd(o, 'H', 'uu')), eye))
    for k, n, d in (('H', 'uu', ('Huu', nu, nu)), ('H', 'ux', ('Hux', nu, nx)), ('H', 'xx', ('Hxx', nx, nx)), ('f', 'u', ('fu', nu)), ('f', 'x', ('fx', nx)),
                    ('A', 'u', ('Au', m, nu)), ('A', 'x', ('Ax', m, nx))):
        s.prove('keeps %s_%s' % (k, n), val_eq(pd(o, k, n), ar.inputarr(*d).val()))
    s.prove('keeps b', val_eq(val(o.attrs['b']), ar.inputarr('b', m).val()))
    s.prove('keeps g', Eq(T(o.attrs['g']), s.real('g')))
    s.unchanged()


def normalize_contract(s):
    """Polyhedron.normalize (C06): rows and right-hand sides are multiplied by positive factors."""
    def h(it, args, kw):
        o = args[0]
        for A, b, t in (('A', 'b', 'sca'), ('C', 'd', 'scc')):
            av, bv = v(o, A), v(o, b)
            if not av.dims[0]:
                continue
            f, name = nf.fresh_vec(it, t, av.dims[0])
            s.assume(ar.forall_over(f.dims, lambda l: Lt(0, f.at(l))))
            d, m1, m2 = ar.align_nobranch(av.dims[0], bv.dims[0])
            o.set(A, Arr(Val(av.dims, lambda l, c, av=av, f=f: f.at(l) * av.at(l, c))))
            o.set(b, Arr(Val([d], lambda l, bv=bv, f=f, m1=m1, m2=m2: f.at(m1(l)) * bv.at(m2(l)))))
        return None
    s.it.contracts[GEO + ':Polyhedron.normalize'] = h


@scenario('C21', 'explicit_solve_given_active_set', [PAR + ':MultiParametricQuadraticProgram.explicit_solve_given_active_set',
          PAR + ':CriticalRegion.u', PAR + ':CriticalRegion.p', PAR + ':CriticalRegion.V'], timeout=20000)
def _(s):
    o, nu, nx, m = mpqp(s)
    na = s.dim('na', 1)
    act, f = index_list(s, na, m, injective=True)
    normalize_contract(s)
    r = s.method(o, 'explicit_solve_given_active_set', act)
    if not r.ok:
        s.fail('active set accepted', r.exc)
        return
    s.unchanged()
    cr = r.value
    rk = [z for z in s.c.calls if z[0] == 'rank']
    if cr is None:
        if not rk:
            s.fail('refused only if dependent', 'no rank computed')
        else:
            s.prove('refused only for dependent active constraints', ILt(rk[-1][2], na))
            ok = rk[-1][1]
            s.prove('rank of the active rows', val_eq(ok, Val([D(na), D(nu)], lambda a, b: Term.atom('Au', f(a[1]), b[1]))))
        return
    x = s.arr('x', nx)
    u, p, V_ = [s.method(cr, k, x) for k in ('u', 'p', 'V')]
    if not (u.ok and p.ok and V_.ok):
        s.fail('region can be evaluated', 'raises')
        return
    u, p, xv = u.value.val(), p.value.val(), x.val()
    At = Val([D(nu), D(m)], lambda a, b: Term.atom('Au', b[1], a[1]))
    grad = addv(ar.dot(pd(o, 'H', 'uu'), u), ar.dot(pd(o, 'H', 'ux'), xv), pd(o, 'f', 'u'), ar.dot(At, p))
    s.prove('stationarity', ar.forall_over(grad.dims, lambda l: Eq(grad.at(l), 0)))
    cons = constraint(o, xv, u)
    k, i = fresh('k', na), fresh('i', m)
    s.prove('active constraints hold with equality', Eq(cons.at((0, f(V(k)))), 0))
    isact = Exists([(k, na)], IEq(f(V(k)), V(i)))
    s.prove('multipliers of the other constraints are zero', Or(isact, Eq(p.at((0, V(i))), 0)))
    s.prove('value is the cost of the solution', Eq(T(V_.value), full_cost(o, xv, u)))
    P_ = cr.attrs['polyhedron']
    inside = And(rows_le(v(P_, 'A'), xv, v(P_, 'b')), rows_eq(v(P_, 'C'), xv, v(P_, 'd')))
    opt = And(Forall([(k, na)], Le(0, p.at((0, f(V(k)))))), Forall([(i, m)], Or(isact, Le(cons.at((0, V(i))), 0))))
    s.prove('inside the region the conditions hold', Implies(inside, opt))
    s.prove('where the conditions hold is inside the region', Implies(opt, inside))


# ------------------------------------------------------------------ solution at one parameter
@scenario('C21', 'solve', [PAR + ':MultiParametricQuadraticProgram.solve'])
def _(s):
    o, nu, nx, m = mpqp(s)
    x = s.arr('x', nx)
    u = s.arr('u', nu).val()
    s.c.calls = []
    qp_contract(s, [point(s, 'u')])
    r = s.method(o, 'solve', x)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    xv = x.val()
    ok = all_le(constraint(o, xv, u))
    get = lambda k: dget(r.value, k)
    qps = [q[1] for q in s.c.calls if q[0] == 'qp']
    if len(qps) != 1:
        raise Unsupported('programs solved: %d' % len(qps))
    if get('min') is None:
        s.prove('None only if no decision is feasible', Not(ok))
        for k in ('argmin', 'active_set', 'multiplier_inequality'):
            s.prove('infeasible: %s is None' % k, TRUE if get(k) is None else FALSE)
        return
    a = val(get('argmin'))
    s.prove('feasible programs are solved', TRUE if qps[0]['solved'] else FALSE)
    s.prove('the argument is feasible', all_le(constraint(o, xv, a)))
    s.prove('the value is the full cost of the argument', Eq(T(get('min')), full_cost(o, xv, a)))
    s.prove('no feasible decision costs less', Implies(ok, Le(T(get('min')), full_cost(o, xv, u))))
    s.prove('the multipliers are those of the program', val_eq(val(get('multiplier_inequality')), qps[0]['mu']))


# ------------------------------------------------------------------ explicit solution
def region(s, k, nx, nu, m, mk):
    """Critical region number k of a family: affine laws and a polyhedron with mk(k) rows."""
    k = P(k)
    at = lambda nme, *ds: Arr(Val([D(d) for d in ds], lambda *ls: Term.atom(nme, k, *[l[1] for l in ls])))
    pol = s.obj(GEO, 'Polyhedron', A=Arr(Val([D(mk(k)), D(nx)], lambda a, b: Term.atom('RA', k, a[1], b[1]))),
                b=Arr(Val([D(mk(k))], lambda a: Term.atom('Rb', k, a[1]))), C=Arr(Val([D(0), D(nx)], lambda a, b: T(0))),
                d=Arr(Val([D(0)], lambda a: T(0))), _empty=None, _bounded=None, _radius=None, _center=None, _vertices=None)
    return s.obj(PAR, 'CriticalRegion', active_set=Opaque('active', k=k), _u=DObj({'x': at('ux', nu, nx), '0': at('u0', nu)}),
                 _p=DObj({'x': at('px', m, nx), '0': at('p0', m)}), _V=DObj({'xx': at('Vxx', nx, nx), 'x': at('Vx', nx), '0': Term.atom('V0', k)}), polyhedron=pol)


def regions(s):
    nu, nx, m, M = s.dim('nu', 1), s.dim('nx', 1), s.dim('m'), s.dim('M')
    lg.APP_SIZE['rm'] = None
    del lg.APP_SIZE['rm']
    mk = lambda k: PA('rm', P(k))
    reg = lambda k: region(s, k, nx, nu, m, mk)
    return nu, nx, m, M, reg


TOL = T(1.e-7)


def inside(cr, x):
    P_ = cr.attrs['polyhedron']
    return rows_le(v(P_, 'A'), x, v(P_, 'b'), TOL)


@scenario('C21', 'ExplicitSolution lookup', [PAR + ':ExplicitSolution.__init__', PAR + ':ExplicitSolution.get_critical_region', PAR + ':CriticalRegion.contains',
                                             GEO + ':Polyhedron.contains'])
def _(s):
    nu, nx, m, M, reg = regions(s)
    x = s.arr('x', nx)
    r = s.new(s.cls(PAR, 'ExplicitSolution'), s.fam(M, reg))
    if not r.ok:
        s.fail('solution built', r.exc)
        return
    q = s.method(r.value, 'get_critical_region', x)
    if not q.ok:
        s.fail('lookup answers', q.exc)
        return
    s.unchanged()
    k = fresh('k', M)
    if q.value is None:
        s.prove('None only outside of every region', Not(inside(reg(V(k)), x.val())))
    else:
        s.prove('the region found contains the parameter', inside(q.value, x.val()))


@scenario('C21', 'ExplicitSolution evaluation', [PAR + ':ExplicitSolution.u', PAR + ':ExplicitSolution.p', PAR + ':ExplicitSolution.V', PAR + ':CriticalRegion.u',
                                                 PAR + ':CriticalRegion.p', PAR + ':CriticalRegion.V'])
def _(s):
    """Against the contract of the lookup."""
    nu, nx, m, M, reg = regions(s)
    x = s.arr('x', nx)
    E = s.obj(PAR, 'ExplicitSolution', critical_regions=s.fam(M, reg))
    found = []

    def h(it, args, kw):
        name, ix = it.fresh_name('cr')
        if s.c.branch(Pred(name, *ix)):
            found.append((val(args[1]), reg(V('the'))))
            return found[-1][1]
        found.append((val(args[1]), None))
        return None
    NONNEG['the'] = 0
    s.it.contracts[PAR + ':ExplicitSolution.get_critical_region'] = h
    k = ('u', 'p', 'V')[s.c.choose(3, 'which')]
    q = s.method(E, k, x)
    if not q.ok:
        s.fail('evaluation answers', q.exc)
        return
    s.unchanged()
    if not found:
        raise Unsupported('region not looked up')
    s.prove('region of the parameter', val_eq(found[-1][0], x.val()))
    cr = found[-1][1]
    if cr is None:
        s.prove('None outside of every region', TRUE if q.value is None else FALSE)
        return
    if q.value is None:
        s.fail('a value inside a region', 'None')
        return
    xv = x.val()
    g = lambda d, n: dget(cr.attrs['_' + d], n)
    if k == 'V':
        s.prove('value of the region', Eq(T(q.value), T(0.5) * quad(xv, val(g('V', 'xx')), xv) + ar.dot(val(g('V', 'x')), xv) + T(g('V', '0'))))
    else:
        s.prove('law of the region: %s' % k, val_eq(val(q.value), addv(ar.dot(val(g(k, 'x')), xv), val(g(k, '0')))))


def active_set_contract(s):
    """explicit_solve_given_active_set: None or a region of that active set (its obligations: the scenario above)."""
    def h(it, args, kw):
        act = args[1] if len(args) > 1 else kw['active_set']
        name, ix = it.fresh_name('reg')
        if s.c.branch(Pred(name, *ix)):
            cr = Opaque('region', act=act, name=name)
            s.c.calls.append(('region', act, cr))
            return cr
        s.c.calls.append(('region', act, None))
        return None
    s.it.contracts[PAR + ':MultiParametricQuadraticProgram.explicit_solve_given_active_set'] = h


def _region_call(it, o, n, a, k):
    if n == 'contains':
        if len(a) > 1 or k:
            list(a), dict(k.items())
            name, ix = it.fresh_name('near')      # membership within another tolerance: says nothing about the region
            return ctx_().branch(Pred(name, *ix))
        name, ix = it.fresh_name('in')
        t = ctx_().branch(Pred(name, *ix))
        ctx_().calls.append(('contains', o, a[0], t))
        return t
    if n == 'minimal_facets':
        return Opaque('facets', cr=o)
    raise Unsupported('CriticalRegion.%s' % n)


def ctx_():
    return G.ctx


nm.OPAQUE['region'] = {'call': _region_call, 'getattr': lambda it, o, n: o.act if n == 'active_set' else o if n == 'polyhedron' else nm.ExtMethod(o, n)}


@scenario('C21', 'explicit_solve_given_point', [PAR + ':MultiParametricQuadraticProgram.explicit_solve_given_point'])
def _(s):
    o, nu, nx, m = mpqp(s)
    x = s.arr('x', nx)
    guess = Opaque('guess') if s.c.choose(2, 'guess') else None
    verbose = bool(s.c.choose(2, 'verbose'))
    active_set_contract(s)
    s.c.calls = []

    def solve(it, args, kw):
        name, ix = it.fresh_name('sol')
        if s.c.branch(Pred(name, *ix)):
            d = {'min': s.real('mn'), 'argmin': s.arr('am', nu), 'active_set': Opaque('active', of=val(args[1])), 'multiplier_inequality': s.arr('mi', m)}
        else:
            d = {k: None for k in ('min', 'argmin', 'active_set', 'multiplier_inequality')}
        s.c.calls.append(('solve', val(args[1]), d))
        return DObj(d)
    s.it.contracts[PAR + ':MultiParametricQuadraticProgram.solve'] = solve
    r = s.method(o, 'explicit_solve_given_point', x, guess, verbose)
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    sols = [c for c in s.c.calls if c[0] == 'solve']
    regs = [c for c in s.c.calls if c[0] == 'region']
    for c in sols:
        s.prove('solved at the parameter', val_eq(c[1], x.val()))
    cr = r.value
    if cr is None:
        why = any(c[2]['active_set'] is None for c in sols) or any(c[2] is None and any(c[1] is z[2]['active_set'] for z in sols) for c in regs)
        s.prove('None only if infeasible, or if the active set found is degenerate', TRUE if why else FALSE)
        return
    mine = [c for c in regs if c[2] is cr]
    s.prove('the region is the one of an active set', TRUE if mine else FALSE)
    if mine:
        act = mine[0][1]
        opt = any(act is z[2]['active_set'] for z in sols)
        inn = any(c[0] == 'contains' and c[1] is cr and c[3] and c[2] is x for c in s.c.calls)
        s.prove('optimal active set at the parameter, or a region that contains it', TRUE if opt or inn else FALSE)


@scenario('C21', 'explicit_solve_given_active_set: no active constraint', [PAR + ':MultiParametricQuadraticProgram.explicit_solve_given_active_set'])
def _(s):
    o, nu, nx, m = mpqp(s)
    normalize_contract(s)
    r = s.method(o, 'explicit_solve_given_active_set', LObj.of([]))
    if not r.ok:
        s.fail('active set accepted', r.exc)
        return
    s.unchanged()
    cr = r.value
    if cr is None:
        s.fail('the unconstrained region exists', 'None')
        return
    x = s.arr('x', nx)
    u, p, V_ = [s.method(cr, k, x) for k in ('u', 'p', 'V')]
    if not (u.ok and p.ok and V_.ok):
        s.fail('region can be evaluated', 'raises')
        return
    u, p, xv = u.value.val(), p.value.val(), x.val()
    grad = addv(ar.dot(pd(o, 'H', 'uu'), u), ar.dot(pd(o, 'H', 'ux'), xv), pd(o, 'f', 'u'))
    s.prove('stationarity', ar.forall_over(grad.dims, lambda l: Eq(grad.at(l), 0)))
    s.prove('multipliers are zero', And(IEq(dsize(p.dims[0]), m), ar.forall_over(p.dims, lambda l: Eq(p.at(l), 0))))
    s.prove('value is the cost of the solution', Eq(T(V_.value), full_cost(o, xv, u)))
    P_ = cr.attrs['polyhedron']
    proves_iff(s, 'the region is where the constraints hold', member(P_, xv), all_le(constraint(o, xv, u)))


class Explored(object):
    """Invariant of explicit_solve: every region of the list of regions was built by explicit_solve_given_point."""
    def __init__(self, s, reg, made, nx, crs, buf):
        self.s, self.reg, self.made, self.nx, self.crs, self.buf = s, reg, made, nx, crs, buf
        self.keep = {crs, buf}
        self.count = 0

    def good(self, l):
        return isinstance(l, LObj) and all(x[0] == 'one' and any(x[1] is y for y in self.made) or x[0] == 'fam' and x is self.gen for x in l.segs)

    gen = None

    def enter(self, frame):
        self.s.prove('the regions are those found so far', TRUE if self.good(frame.env[self.crs]) else FALSE)

    def objs(self, frame):
        return [frame.env[self.crs], frame.env[self.buf]]

    def havoc(self, frame, i=None):
        s = self.s
        n, k = V(fresh('nc')), V(fresh('nb'))
        for q in (n, k):
            NONNEG[q.single()] = 0
        l = s.fam(n, self.reg)
        self.gen = l.segs[0]
        frame.setname(self.crs, l)
        frame.setname(self.buf, s.fam(k, lambda j: (Arr(Val([D(self.nx)], lambda z: Term.atom('xb', P(j), z[1]))),
                                                    LObj([('fam', I(PA('gn', P(j))), 'gl', I(PA('gi', P(j), V('gl'))))]))))

    def preserve(self, frame, i=None):
        self.s.prove('every region found was built for a point', TRUE if self.good(frame.env[self.crs]) else FALSE)


@scenario('C21', 'explicit_solve', [PAR + ':MultiParametricQuadraticProgram.explicit_solve'])
def _(s):
    o, nu, nx, m = mpqp(s)
    mk = lambda k: PA('rm', P(k))
    reg = lambda k: region(s, k, nx, nu, m, mk)
    made = []
    asked = []

    def given(it, args, kw):
        name, ix = it.fresh_name('found')
        if ix:
            raise Unsupported('regions found in a comprehension')
        asked.append(list(args))
        if s.c.branch(Pred(name)):
            cr = region(s, V(name + '.k'), nx, nu, m, mk)
            cr.attrs['active_set'] = LObj([('fam', I(V(name + '.na')), 'al', I(PA(name + '.a', V('al'))))])
            NONNEG[name + '.na'] = NONNEG[name + '.k'] = 0
            made.append(cr)
            return cr
        return None
    s.it.contracts[PAR + ':MultiParametricQuadraticProgram.explicit_solve_given_point'] = given

    def facets(it, args, kw):
        name, ix = it.fresh_name('mf')
        var = fresh('v', mk(V('q')))
        n = dsize(val(args[0].attrs['polyhedron'].attrs['A']).dims[0])
        var = fresh('v', n)
        return LObj(nm.filter_fam(n, var, Pred(name, *(list(ix) + [V(var)])), lambda p: I(p)))
    s.it.contracts[PAR + ':CriticalRegion.minimal_facets'] = facets
    s.it.contracts[PAR + ':CriticalRegion.facet_center'] = lambda it, args, kw: (args[1], Arr(nf.fresh_vec(it, 'fc', D(nx))[0]))[1]
    Q = PAR + ':MultiParametricQuadraticProgram.explicit_solve'

    def names(frame):
        """The list of regions is the one that the result is built from; the work list is the other one."""
        ls = [n for n, x in frame.env.items() if isinstance(x, LObj)]
        buf = [n for n in ls if frame.env[n].segs and isinstance(frame.env[n].segs[0][1 if frame.env[n].segs[0][0] == 'one' else 3], tuple)]
        crs = [n for n in ls if n not in buf and not frame.env[n].segs]
        if len(buf) != 1:
            raise Unsupported('work list not recognised')
        return crs, buf
    spec = [None]

    def outer(frame, st):
        crs, buf = names(frame)
        crs = [n for n in crs if any(isinstance(z, ip.ast.Call) and getattr(z.func, 'attr', '') == 'append' and getattr(z.func.value, 'id', '') == n
                                     for q in st.body for z in ip.ast.walk(q))]
        if len(crs) != 1:
            raise Unsupported('list of regions not recognised')
        spec[0] = Explored(s, reg, made, nx, crs[0], buf[0])
        return invloop.while_loop(s, frame, st, spec[0])
    s.it.loop_contracts[(Q, '*')] = outer

    def inner(frame, st, iterable):
        sp = spec[0]
        if sp is None:
            return NotImplemented
        l = as_list(iterable)
        g = nf.selection(l)
        if g is None:
            raise Unsupported('loop over something else than facets')
        before = list(frame.env[sp.crs].segs)

        class Inner(object):
            keep = {sp.buf}

            def enter(self, frame):
                pass

            def objs(self, frame):
                return [frame.env[sp.buf]]

            def havoc(self, frame, i):
                k = V(fresh('nb'))
                NONNEG[k.single()] = 0
                frame.setname(sp.buf, s.fam(k, lambda j: (Arr(Val([D(nx)], lambda z: Term.atom('xc', P(j), z[1]))), Opaque('guess'))))

            def preserve(self, frame, i):
                s.prove('new points are pairs', TRUE if all(isinstance(x[1 if x[0] == 'one' else 3], tuple) for x in frame.env[sp.buf].segs) else FALSE)
        _, n, var, gg = l.segs[0]
        return invloop.for_loop(s, frame, st, P(n), lambda i: vsubst(gg, {var: P(i)}), Inner())
    s.it.loop_contracts[(Q, 'for')] = inner
    r = s.method(o, 'explicit_solve')
    if not r.ok:
        s.fail('answers', r.exc)
        return
    s.unchanged()
    E = r.value
    if not (isinstance(E, Obj) and E.cls.name == 'ExplicitSolution'):
        s.fail('returns an explicit solution', str(type(E)))
        return
    l = E.attrs.get('critical_regions')
    s.prove('made of the regions found', TRUE if spec[0] is not None and spec[0].good(l) else FALSE)


@scenario('C21', 'get_feasible_set', [PAR + ':MultiParametricQuadraticProgram.get_feasible_set', GEO + ':Polyhedron.__init__'])
def _(s):
    o, nu, nx, m = mpqp(s)
    q = s.dim('q')
    E, g = Arr(Val([D(q), D(nx)], lambda a, b: Term.atom('E', a[1], b[1]))), Arr(Val([D(q)], lambda a: Term.atom('fE', a[1])))
    x, u, w = [Val([D(n)], lambda l, t=t: Term.atom(t, l[1])) for t, n in (('xg', nx), ('ug', nu), ('wg', nu))]
    inset = rows_le(E.val(), x, g.val())
    asked = []

    def h(it, args, kw):
        """project_to (C10): the points of the result are the projections of the points of the polytope."""
        p = args[0]
        l = nm.aslist(args[1] if len(args) > 1 else kw['residual_dimensions'])
        if asked:
            raise Unsupported('two projections')
        if not s.c.branch(Pred('projectable')):
            raise ar.PyRaise('ValueError', 'empty or unbounded')
        s.prove('projected on as many coordinates as parameters', IEq(P(l.length()), nx))
        first = s.c.branch(IEq(P(nm.list_getitem(l, 0)), 0))
        off, k = P(0) if first else nu, fresh('k', nx)
        s.prove('projected on the coordinates of the parameter', Forall([(k, nx)], IEq(P(nm.list_getitem(l, I(V(k)))), off + V(k))))
        s.prove('a polytope in the parameter and the decision', And(IEq(dsize(v(p, 'A').dims[1]), nx + nu), IEq(dsize(v(p, 'C').dims[0]), 0)))
        stack = lambda y: ar.concat([x, y] if first else [y, x], 0)
        res = s.obj(GEO, 'Polyhedron', A=E, b=g, C=s.arr('C0', P(0), nx), d=s.arr('d0', P(0)), **{c: None for c in CACHES})
        asked.append(res)
        try:
            ins = [member(p, stack(y)) for y in (u, w)]
        except Unsupported:         # blocks of columns in another order
            if not s.c.branch(ILt(nu, nx)):
                s.c.branch(ILt(nx, nu))
            ins = [member(p, stack(y)) for y in (u, w)]
        s.assume(Implies(ins[0], inset))
        s.assume(Implies(inset, ins[1]))
        return res
    s.it.contracts[GEO + ':Polyhedron.project_to'] = h
    r = s.method(o, 'get_feasible_set')
    s.unchanged()
    if not r.ok:
        s.prove('raises only for sets that cannot be projected', TRUE if r.exc.split(':')[0].split('(')[0] == 'ValueError' else FALSE)
        s.prove('raises only for empty or unbounded programs', Not(Pred('projectable')))
        return
    if not asked:
        raise Unsupported('feasible set computed in another way')
    s.prove('a parameter with a feasible decision is in the feasible set', Implies(all_le(constraint(o, x, u)), member(r.value, x)))
    s.prove('a parameter of the feasible set has a feasible decision', Implies(member(r.value, x), all_le(constraint(o, x, w))))


CR = PAR + ':CriticalRegion.'


@scenario('C21', 'facets of a critical region', [CR + '__init__', CR + 'facet_center', CR + 'minimal_facets', CR + 'A', CR + 'b', GEO + ':Polyhedron.add_equality',
                                                 GEO + ':Polyhedron.__init__'])
def _(s):
    nu, nx, m = s.dim('nu', 1), s.dim('nx', 1), s.dim('m')
    mr = s.dim('mr', 1)
    A, b = s.arr('RA', mr, nx), s.arr('Rb', mr)
    pol = s.obj(GEO, 'Polyhedron', A=A, b=b, C=Arr(Val([D(0), D(nx)], lambda a, b: T(0))), d=Arr(Val([D(0)], lambda a: T(0))), **{c: Stale(c) for c in CACHES})
    parts = [Opaque(t) for t in ('active', 'law', 'multipliers', 'value')]
    r = s.new(s.cls(PAR, 'CriticalRegion'), *(parts + [pol]))
    if not r.ok:
        s.fail('region built', r.exc)
        return
    cr = r.value
    for k, z in zip(('active_set', '_u', '_p', '_V', 'polyhedron'), parts + [pol]):
        s.prove('stores %s' % k, TRUE if cr.attrs.get(k) is z else FALSE)
    s.prove('A and b are those of the polyhedron', And(val_eq(val(s.get(cr, 'A').value), A.val()), val_eq(val(s.get(cr, 'b').value), b.val())))
    mf = Opaque('facets')
    s.it.contracts[GEO + ':Polyhedron.minimal_facets'] = lambda it, args, kw: mf if args[0] is pol else Opaque('other facets')
    q = s.method(cr, 'minimal_facets')
    s.prove('minimal facets are those of the polyhedron', TRUE if q.ok and q.value is mf else FALSE)
    i = s.dim('i')
    s.assume(ILt(i, mr))
    asked = []

    def center(it, args, kw):
        """Polyhedron.center (C08): a point of the set (the facet of a nonempty region)."""
        o = args[0]
        asked.append((o, o.attrs['_center']))
        c = Arr(Val([D(nx)], lambda l: Term.atom('cf', l[1])))
        s.assume(member(o, c))
        return c
    s.it.contracts[GEO + ':Polyhedron.center'] = center
    sn = snap(pol)
    q = s.method(cr, 'facet_center', I(i))
    s.unchanged()
    for k, w in zip('AbCd', sn):
        s.prove('region: %s unchanged' % k, val_eq(w, v(pol, k)))
    if not q.ok:
        s.fail('a center is returned', q.exc)
        return
    row = lambda l: A.val().at((0, i), l)
    if not asked:          # one parameter: the facet is a point
        s.prove('computed directly only for one parameter', IEq(nx, 1))
        x = q.value
        x = T(nm.at_locs(val(x), [('idx', P(0))])) if isinstance(x, Arr) and val(x).dims else T(x)
        s.assume(Not(Eq(A.val().at((0, i), (0, P(0))), 0)))
        s.prove('the center is on the facet', Eq(A.val().at((0, i), (0, P(0))) * x, b.val().at((0, i))))
        return
    if len(asked) > 1:
        raise Unsupported('several centers')
    o, stale = asked[0]
    s.prove('no outdated center is used', TRUE if stale is None else FALSE)
    x = val(q.value)
    s.prove('the center is on the facet', Eq(ar.dot(Val([D(nx)], row), x), b.val().at((0, i))))
    s.prove('the center is in the region', rows_le(A.val(), x, b.val()))


@scenario('C21', 'store_explicit_solution', [CTL + ':ModelPredictiveController.store_explicit_solution'])
def _(s):
    q, E = s.obj(PAR, 'MultiParametricQuadraticProgram'), Opaque('explicit')
    seen = []

    def h(it, args, kw):
        seen.append((args, kw))
        return E
    s.it.contracts[PAR + ':MultiParametricQuadraticProgram.explicit_solve'] = h
    o = s.obj(CTL, 'ModelPredictiveController', mpqp=q, explicit_solution=None)
    r = s.method(o, 'store_explicit_solution')
    if not r.ok:
        s.fail('stored', r.exc)
        return
    s.prove('the explicit solution of the program of the controller is stored',
            TRUE if seen and seen[-1][0][0] is q and o.attrs['explicit_solution'] is E else FALSE)
