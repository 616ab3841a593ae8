"""C18: maximal constraint-admissible invariant sets."""
import ast
from ._lib import *
from ._solvers import *
from .dynamics import addv, item, linsys, sc
from .geometry_facets import facets_contract
from vc import invloop

MC = DTS + ':mcais'
POL = GEO + ':Polyhedron.'


@scenario('C18', 'LinearSystem.mcais', [DTS + ':LinearSystem.mcais'])
def _(s):
    """The closed loop A + B K with the states whose pair (x, K x) satisfies the inequalities of D."""
    S = linsys(s, affine=False)
    nx, nu = S.attrs['nx'], S.attrs['nu']
    K = s.arr('K', nu, nx)
    Dm = polyhedron(s, 'D', nx + nu, p=P(0))
    sn = snap(Dm)
    x = s.arr('x', nx).val()
    seen = []
    res = Opaque('set')

    def h(it, args, kw):
        seen.append((list(args), dict(kw.items())))
        if s.c.branch(Pred('refused')):
            raise PyRaise('ValueError')
        return res
    s.it.contracts[MC] = h
    kw = {'verbose': bool(s.c.choose(2, 'verbose'))} if s.c.choose(2, 'options') else {}
    r = s.method(S, 'mcais', K, Dm, **kw)
    s.unchanged()
    frame_obj(s, Dm, sn, 'constraint set')
    if len(seen) != 1:
        if not r.ok and r.exc != 'ValueError':
            s.fail('answers or refuses with ValueError', r.exc)
            return
        raise Unsupported('%d calls of mcais' % len(seen))
    if r.ok:
        s.prove('returns the set', TRUE if r.value is res else FALSE)
    else:
        s.prove('refused as by mcais', TRUE if r.exc == 'ValueError' else FALSE)
    (args, kw2) = seen[0]
    A, X = val(args[0]), args[1]
    s.prove('closed-loop dynamics', val_eq(A, addv(v(S, 'A'), ar.dot(v(S, 'B'), K.val()))))
    xu = ar.concat([x, ar.dot(K.val(), x)], 0)
    proves_iff(s, 'states whose pair is admissible', member(X, x), rows_le(sn[0], xu, sn[1]))


class Horizon(object):
    """Invariant: x in O iff the first t states from x are in X; the origin is in O; directions of O are directions of X;
    if converged, x in O implies that the state at time t is in X."""

    def __init__(self, s, X, x, rr, inn, m, n):
        self.s, self.X, self.x, self.rr, self.inn, self.m, self.n = s, X, x, rr, inn, m, n

    def names(self, frame, st):
        out = invloop.assigned(st.body)
        env = frame.env
        ob = [k for k, z in env.items() if isinstance(z, Obj) and z.cls.name == 'Polyhedron' and z is not self.X]
        it = [k for k in out if k in env and ip.is_int(env[k]) and not isinstance(env[k], bool)]
        bo = [k for k in out if k in env and isinstance(env[k], bool)]
        oth = [k for k in out if k in env and k not in it + bo]
        if not ob and 'O_inf' in env and env['O_inf'] is self.X:
            self.s.fail('frame condition of the loop', 'the set under construction is the argument')
            raise PathDone()
        if len(ob) != 1 or len(it) != 1 or len(bo) > 1:
            raise Unsupported('state of the loop not recognised')
        # matrices carried along: a power of the dynamics, or the constraint rows times one
        self.mats = []
        for k in oth:
            z = env[k]
            if not isinstance(z, Arr) or z.ndim != 2:
                continue
            one = lambda k, t: self.M if t == P(1) else self.pw(t)
            for what in (lambda t, d, k=k: one(k, t + d), lambda t, d, k=k: ar.dot(v(self.X, 'A'), one(k, t + d))):
                for d in (0, -1, 1):
                    if self.s.c.check(val_eq(z.val(), what(P(env[it[0]]), d)))[0]:
                        self.mats.append((k, lambda t, what=what, d=d: what(P(t), d)))
                        break
                else:
                    continue
                break
        self.O, self.t, self.cv = ob[0], it[0], (bo[0] if bo else None)
        self.running = {k for k, _ in self.mats}
        self.keep = set(it + bo) | self.running
        self.start = (bo and env[bo[0]]) or False
        # 'while not flag': the matrices carried along matter only while the flag is not set
        self.until = self.cv is not None and ast.unparse(st.test) == 'not ' + self.cv

    def inv(self, O, t, cv):
        s = self.s
        k = fresh('s')
        all_in = Forall([(k, P(t))], self.inn(V(k), self.x))
        zero = Val([D(self.n)], lambda l: T(0))
        mem = member(None, self.x, O)
        out = [('x in the set implies the first states are admissible', Implies(mem, all_in)),
               ('x with admissible first states is in the set', Implies(all_in, mem)),
               ('the origin is in the set', member(None, zero, O)),
               ('directions of the set are directions of X', Implies(all_le(ar.dot(O[0], self.rr)), all_le(ar.dot(v(self.X, 'A'), self.rr)))),
               ('no equalities', IEq(dsize(O[2].dims[0]), 0)),
               ('time', ILe(1, P(t)))]
        if cv is not None:
            out.append(('converged: the next state is admissible', Implies(And(cv, mem), self.inn(P(t), self.x))))
        return out

    def flag(self, frame):
        if self.cv is None:
            return None
        z = frame.env[self.cv]
        return (TRUE if z else FALSE) if isinstance(z, bool) else ip.fm(z)

    def enter(self, frame):
        for nme, f in self.inv(snap(frame.env[self.O]), P(frame.env[self.t]), self.flag(frame)):
            self.s.prove('initially: ' + nme, f)

    def objs(self, frame):
        return [frame.env[self.O]]

    def havoc(self, frame):
        s = self.s
        q = V(fresh('q'))
        NONNEG[q.single()] = 0
        t = V(fresh('t'))
        NONNEG[t.single()] = 1
        n = self.n
        o = Obj(s.cls(GEO, 'Polyhedron'), {'A': Arr(Val([D(q), D(n)], lambda a, b: Term.atom('OA', a[1], b[1]))), 'b': Arr(Val([D(q)], lambda a: Term.atom('Ob', a[1]))),
                                           'C': Arr(Val([D(0), D(n)], lambda a, b: T(0))), 'd': Arr(Val([D(0)], lambda a: T(0)))})
        for c in CACHES:
            o.attrs[c] = None
        frame.setname(self.O, o)
        frame.setname(self.t, I(t))
        cv = None
        if self.cv is not None:
            cv = Pred('converged')
            frame.setname(self.cv, ip.B(cv))
        for k, f in self.mats:
            frame.setname(k, Arr(f(t)))
            for d in (0, 1, 2):
                # definition of the powers
                for pr in (ar.dot(self.pw(t + d - 1), self.M), ar.dot(self.M, self.pw(t + d - 1))):
                    nf.add_zero_matrix(s.c, sub_(self.pw(t + d), pr), lambda fs: 10 * len(fs), 'power')
        self.now = (snap(o), t, cv)
        for nme, f in self.inv(*self.now):
            s.assume(f)
        s.assume(Implies(all_le(ar.dot(self.now[0][0], self.rr)), all_le(ar.dot(v(self.X, 'A'), self.rr))))

    def preserve(self, frame):
        for nme, f in self.inv(snap(frame.env[self.O]), P(frame.env[self.t]), self.flag(frame)):
            self.s.prove('preserved: ' + nme, f)
        go = Not(self.flag(frame)) if self.until else TRUE
        for k, f in self.mats:
            self.s.prove('preserved: ' + k, Implies(go, val_eq(val(frame.env[k]), f(P(frame.env[self.t])))))


@scenario('C18', 'mcais', [MC], timeout=12000)
def _(s):
    n, m = s.dim('n', 1), s.dim('m', 1)
    A = s.arr('F', n, n)
    X = polyhedron(s, '', n, m=m, p=P(0))
    sn = snap(X)
    s.protected = [X]
    XA, Xb = sn[0], sn[1]
    x = s.arr('x', n).val()
    rr = Val([D(n)], lambda l: Term.atom('rr', l[1]))
    key = nf.power_name(A.val())[0]
    s.c.powers[key] = A.val()
    pw = lambda k: Val([D(n), D(n)], lambda a, b: Term.atom(key, P(k), a[1], b[1]))
    nf.add_zero_matrix(s.c, sub_(pw(0), Val([D(n), D(n)], lambda a, b: Term.delta(a[1] - b[1]))), lambda fs: 10 * len(fs), 'power 0')
    inn = lambda k, z: rows_le(ar.dot(XA, pw(k)), z, Xb)
    verbose = bool(s.c.choose(2, 'verbose'))

    def eig(it, a, k):
        nm.trust('numpy.linalg.eig: the moduli of the eigenvalues, modelled by absolute values of real numbers')
        w = val(a[0])
        s.prove('eigenvalues of the dynamics', val_eq(w, A.val()))
        e = Arr(Val([w.dims[0]], lambda l: Term.atom('eig', ar.flat(w.dims[0], l))))
        return (e, Opaque('eigenvectors'))
    s.c.eig_hook = eig
    s.c.eigvals_hook = lambda it, a, k: eig(it, a, k)[0]
    k = fresh('k', n)
    unstable = Exists([(k, n)], Or(Lt(1, Term.atom('eig', V(k))), Lt(Term.atom('eig', V(k)), -1)))
    zero = Val([D(n)], lambda l: T(0))
    nm.trust('containment of the origin: the tolerance 1e-7 is treated as zero')
    s.assume(Or(rows_le(XA, zero, Xb), Not(rows_le(XA, zero, Xb, T(1.e-7)))))

    def bounded(it, args, kw):
        o = args[0]
        for a_, b_ in zip(snap(o), sn):
            s.prove('boundedness of the constraint set', val_eq(a_, b_))
        return s.c.branch(Pred('bounded'))
    s.it.contracts[POL + 'bounded'] = bounded
    rec = lambda r: Implies(And(Pred('bounded'), all_le(ar.dot(XA, r))), all_eq0(r))
    sp = Horizon(s, X, x, rr, inn, m, n)
    sp.pw, sp.M = pw, A.val()

    def on_ray(r):
        """The invariant and boundedness of X at the ray."""
        if getattr(sp, 'now', None) is None:
            return
        f = And(Implies(all_le(ar.dot(sp.now[0][0], r)), all_le(ar.dot(XA, r))), rec(r))
        s.assume(f)
    lp_contract(s, [point(s, 'x'), lambda dx: Val([dx], lambda l: T(0))], on_ray=on_ray)
    facets_contract(s, [point(s, 'x'), lambda dx: Val([dx], lambda l: T(0))])

    def loop(frame, st):
        sp.names(frame, st)
        return invloop.while_loop(s, frame, st, sp)
    s.it.loop_contracts[(MC, '*')] = loop
    r = s.call(s.it.get(DTS, 'mcais'), A, X, verbose=verbose)
    s.unchanged()
    frame_obj(s, X, sn, 'constraint set')
    ok0 = rows_le(XA, zero, Xb)
    if not r.ok:
        if r.exc != 'ValueError':
            s.fail('answers', r.exc)
            return
        s.prove('refused only for unstable dynamics, unbounded sets or sets without the origin', Or(unstable, Not(ok0), Not(Pred('bounded'))))
        return
    s.prove('unstable dynamics, unbounded sets and sets without the origin are refused', And(Not(unstable), ok0, Pred('bounded')))
    O = r.value
    if getattr(sp, 'now', None) is None or not isinstance(O, Obj):
        raise Unsupported('result')
    t = sp.now[1]
    kk = fresh('s')
    all_in = Forall([(kk, t)], inn(V(kk), x))
    s.lemma('states of the set: the first states are admissible', Implies(member(O, x), And(all_in, inn(t, x))))
    s.prove('contained in the constraint set', Implies(And(member(O, x), Implies(all_in, inn(P(0), x))), rows_le(XA, x, Xb)))
    s.prove('maximal: a state outside leaves within t steps', Implies(all_in, member(O, x)))


@scenario('C18', 'lemma: invariance', [MC])
def _(s):
    """If O = {x : A^s x in X, s < t} and x in O implies A^t x in X, then x in O implies A x in O (hence all future states)."""
    nm.rule('Rules.lean admissible_forever', 'admissible one more step from every such state, hence at all times (induction)')
    n, m = s.dim('n', 1), s.dim('m')
    A = s.arr('A', n, n).val()
    XA, Xb = s.arr('XA', m, n).val(), s.arr('Xb', m).val()
    x = s.arr('x', n).val()
    t = s.dim('t', 1)
    pw = lambda k: Val([D(n), D(n)], lambda a, b: Term.atom('pw', P(k), a[1], b[1]))
    inn = lambda k, z: rows_le(ar.dot(XA, pw(k)), z, Xb)
    k = fresh('k')
    s.assume(Forall([(k, t + 1)], inn(V(k), x)))
    q = V(fresh('q', t))
    # A^(q+1) = A^q A
    nf.add_zero_matrix(s.c, sub_(ar.dot(pw(q), A), pw(q + 1)), lambda fs: len(fs), 'power')
    s.prove('the next state satisfies the same constraints', inn(q, ar.dot(A, x)))
