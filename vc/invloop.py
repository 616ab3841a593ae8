"""Loops under a user-supplied invariant: the standard rule (establish, preserve by an arbitrary iteration, use at the exit)."""
import ast
from .poly import P, V
from .logic import ILe, fresh
from .ctx import Unsupported, PathDone
from .interp import Poison, Cont, Brk, vsubst
from .arr import Cell
from . import interp as ip


def assigned(sts):
    out = set()
    for st in sts:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def clear(frame, st, keep):
    """Names assigned by the body have no known value unless the invariant gives one."""
    for n in assigned(st.body):
        if n in frame.env and n not in keep:
            frame.setname(n, Poison('loop variable'))


def run_body(s, frame, st, objs):
    """One execution of the body; everything it writes must be new, a local name, or one of the objects of the invariant."""
    c = s.c
    maxid, maxcell = ip._ids[0], Cell._n
    old = c.mutation_log
    c.mutation_log = log = []
    try:
        frame.block(st.body)
    except Cont:
        pass
    finally:
        c.mutation_log = old
        for k, o, n in log:
            if k == 'name':
                continue
            new = o.id > (maxcell if k == 'cell' else maxid)
            if not new and any(o is x for x in getattr(s, 'protected', [])):
                s.fail('frame condition of the loop', 'writes an argument of the function')
                raise PathDone()
            if not new and not any(o is x for x in objs):
                raise Unsupported('the loop writes an object that its invariant does not mention')


def in_order(l):
    """Element i of a list as a function of i, for lists whose integers are the positions themselves; else None."""
    if len(l.segs) != 1 or l.segs[0][0] != 'fam':
        return None
    _, n, v, g = l.segs[0]
    if not all(P(x) == V(v) for x in (g if isinstance(g, tuple) else (g,)) if ip.is_int(x)):
        return None
    return lambda i: vsubst(g, {v: P(i)})


def for_loop(s, frame, st, n, bind, spec):
    """bind(i): value of the target at iteration i.  spec: enter(frame), havoc(frame, i) (state at the start of iteration i,
    i = n after the loop), preserve(frame, i), keep (names given by havoc), objs(frame) (objects written)."""
    spec.enter(frame)
    if s.c.choose(2, 'loop exit') == 0:
        i = fresh('i', n)
        s.c.assume(ILe(1, P(n)))
        clear(frame, st, spec.keep)
        spec.havoc(frame, V(i))
        frame.assign(st.target, bind(V(i)))
        try:
            run_body(s, frame, st, spec.objs(frame))
        except Brk:
            return
        spec.preserve(frame, V(i))
        raise PathDone()
    clear(frame, st, spec.keep)
    spec.havoc(frame, P(n))
    frame.block(st.orelse)


def while_loop(s, frame, st, spec):
    """As for_loop with the condition of the loop; no progress is claimed (partial correctness)."""
    spec.enter(frame)
    c = s.c.choose(2, 'loop exit')
    clear(frame, st, spec.keep)
    spec.havoc(frame)
    t = frame.interp.ext.truth(frame.interp, frame.expr(st.test))
    if c == 0:
        if not t:
            raise PathDone()
        try:
            run_body(s, frame, st, spec.objs(frame))
        except Brk:
            return
        spec.preserve(frame)
        raise PathDone()
    if t:
        raise PathDone()
    # values that the invariant gives only while the loop goes on
    clear(frame, st, spec.keep - set(getattr(spec, 'running', ())))
    frame.block(st.orelse)
