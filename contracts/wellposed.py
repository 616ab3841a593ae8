"""C19: construction and well-posedness of piecewise-affine systems."""
from ._lib import *
from .dynamics import addv, item, pwa, sc

PW = DTS + ':PieceWiseAffineSystem.'
TOL = T(1.e-7)


def pair_contracts(s, doms, M):
    """intersection: the polyhedron of the pair (C02); empty and radius of it: symmetric functions of the pair (C07, C08)."""
    def number(o):
        k = fresh('dm', M)
        want = v(doms(V(k)), 'b').at((0, V('%r')))
        have = v(o, 'b').at((0, V('%r')))
        fs = list(T(have).m.values())
        if len(fs) != 1 or len(fs[0][0].factors) != 1 or fs[0][0].factors[0].name != 'Db':
            raise Unsupported('intersection of something else than domains')
        return fs[0][0].factors[0].idx[0]

    def order(i, j):
        c = s.c
        if c.truth(ILe(i, j)):
            return i, j
        if c.truth(ILe(j, i)):
            return j, i
        raise Unsupported('pair of domains of unknown order')

    def inter(it, args, kw):
        i, j = order(number(args[0]), number(args[1]))
        o = Obj(s.cls(GEO, 'Polyhedron'), {'pair': (I(i), I(j)), 'A': Opaque('rows'), 'b': Opaque('rows'), 'C': Opaque('rows'), 'd': Opaque('rows')})
        return o

    def pair(o):
        if 'pair' not in o.attrs:
            k = number(o)
            return k, k
        return tuple(P(z) for z in o.attrs['pair'])

    def empty(it, args, kw):
        return Pred('emp', *pair(args[0]))

    def radius(it, args, kw):
        i, j = pair(args[0])
        if s.c.branch(Pred('unb', i, j)):
            return None
        return Term.atom('rad', i, j)
    s.it.contracts[GEO + ':Polyhedron.intersection'] = inter
    s.it.contracts[GEO + ':Polyhedron.empty'] = empty
    s.it.contracts[GEO + ':Polyhedron.radius'] = radius


def overlap(i, j, tol=TOL):
    return And(Not(Pred('emp', i, j)), Or(Pred('unb', i, j), Lt(tol, Term.atom('rad', i, j))))


@scenario('C19', 'is_well_posed', [PW + 'is_well_posed'])
def _(s):
    S, sysm, dom, nx, nu, M = pwa(s)
    pair_contracts(s, dom, M)
    r = s.method(S, 'is_well_posed')
    if not r.ok:
        s.fail('answers', r.exc)
        return
    i, j = fresh('i', M), fresh('j', M)
    if r.value is True:
        s.prove('well posed only if no two domains overlap', Forall([(i, M), (j, M)], Implies(ILt(V(i), V(j)), Not(overlap(V(i), V(j))))))
    elif r.value is False:
        s.prove('not well posed only if two domains overlap', Exists([(i, M), (j, M)], And(ILt(V(i), V(j)), overlap(V(i), V(j)))))
    else:
        f = ip.fm(r.value)
        proves_iff(s, 'well posed iff no two domains overlap', f, Forall([(i, M), (j, M)], Implies(ILt(V(i), V(j)), Not(overlap(V(i), V(j))))))


@scenario('C19', 'constructor', [PW + '__init__'])
def _(s):
    """Any number of modes with any dimensions; linear or affine modes."""
    M, M2 = s.dim('M', 1), s.dim('M2', 1)
    lin = bool(s.c.choose(2, 'linear'))
    for f in ('sx', 'su', 'dn'):
        lg.APP_RANGE[f] = lambda z, app, y: [y >= 1]
    for f in ('mD', 'pD'):
        lg.APP_RANGE[f] = lambda z, app, y: [y >= 0]
    sx, su, dn, mD = [lambda k, f=f: PA(f, P(k)) for f in ('sx', 'su', 'dn', 'mD')]

    def sysm(k):
        k = P(k)
        at = {'A': Arr(Val([D(sx(k)), D(sx(k))], lambda a, b: Term.atom('SA', k, a[1], b[1]))),
              'B': Arr(Val([D(sx(k)), D(su(k))], lambda a, b: Term.atom('SB', k, a[1], b[1]))), 'nx': I(sx(k)), 'nu': I(su(k))}
        if lin:
            at['_controllable'] = None
            return s.obj(DTS, 'LinearSystem', **at)
        at['c'] = Arr(Val([D(sx(k))], lambda a: Term.atom('Sc', k, a[1])))
        return s.obj(DTS, 'AffineSystem', **at)

    def dom(k):
        k = P(k)
        at = {'A': Arr(Val([D(mD(k)), D(dn(k))], lambda a, b: Term.atom('DA', k, a[1], b[1]))), 'b': Arr(Val([D(mD(k))], lambda a: Term.atom('Db', k, a[1]))),
              'C': Arr(Val([D(0), D(dn(k))], lambda a, b: T(0))), 'd': Arr(Val([D(0)], lambda a: T(0)))}
        for c in CACHES:
            at[c] = None
        return s.obj(GEO, 'Polyhedron', **at)
    r = s.new(s.cls(DTS, 'PieceWiseAffineSystem'), s.fam(M, sysm), s.fam(M2, dom))
    i, j = fresh('i', M), fresh('j', M2)
    same = Forall([(i, M)], And(IEq(sx(V(i)), sx(0)), IEq(su(V(i)), su(0))))
    good = And(IEq(M, M2), same, Forall([(j, M2)], IEq(dn(V(j)), sx(0) + su(0))))
    s.expect_raise(r, 'ValueError', Not(good), 'incoherent modes and domains')
    s.unchanged()
    if not r.ok:
        return
    o = r.value
    s.assume(good)
    s.prove('dimensions', And(IEq(P(o.attrs['nx']), sx(0)), IEq(P(o.attrs['nu']), su(0)), IEq(P(o.attrs['nm']), M)))
    k = V(fresh('k', M))
    S, d = item(o.attrs['affine_systems'], k), item(o.attrs['domains'], k)
    s.prove('as many systems and domains', And(IEq(P(o.attrs['affine_systems'].length()), M), IEq(P(o.attrs['domains'].length()), M)))
    s.prove('modes keep their dynamics', And(val_eq(v(S, 'A'), v(sysm(k), 'A')), val_eq(v(S, 'B'), v(sysm(k), 'B'))))
    c = v(S, 'c')
    s.prove('size of the offset', IEq(dsize(c.dims[0]), sx(k)))
    s.prove('zero offset of linear modes, own offset of affine ones',
            ar.forall_over(c.dims, lambda l: Eq(c.at(l), 0 if lin else Term.atom('Sc', k, l[1]))))
    s.prove('domains kept in order', And(val_eq(v(d, 'A'), v(dom(k), 'A')), val_eq(v(d, 'b'), v(dom(k), 'b'))))
