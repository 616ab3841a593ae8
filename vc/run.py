"""Deductive verification of one property: run.py PID --repo /repo --tier quick --out FILE"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(6000)


def worker(repo, idx, q, budget):
    from vc import session
    try:
        q.put((idx, session.run_scenario(repo, session.SCENARIOS[idx], budget)))
    except BaseException as e:
        q.put((idx, {'name': session.SCENARIOS[idx][1], 'functions': session.SCENARIOS[idx][2], 'status': 'error',
                     'reason': '%s: %s' % (type(e).__name__, str(e)[:300]), 'trace': traceback.format_exc()[-2500:],
                     'obligations': [], 'executed': [], 'contracts_used': [], 'trusted': [], 'solver_s': 0., 'paths': 0, 'infeasible': 0}))


def load():
    d = os.path.join(HERE, 'contracts')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('contracts.' + f[:-3])


def run(repo, pid, budget=150., only=None, jobs=8, deadline=None):
    start = time.time()
    from vc import session
    load()
    idxs = [i for i, s in enumerate(session.SCENARIOS) if (pid == 'all' or s[0] == pid) and (only is None or only in s[1])]
    out = {}
    todo = list(idxs)
    live = {}
    ctx = mp.get_context('fork')
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(repo, i, q, budget))
            p.start()
            live[i] = (p, q, time.time())
        for i, (p, q, t0) in list(live.items()):
            r = None
            try:
                r = q.get(timeout=0.05)
            except Exception:
                pass
            if r is not None:
                out[i] = r[1]
                p.join(5)
                del live[i]
            elif time.time() - t0 > budget + 60 or not p.is_alive() or (deadline and time.time() - start > deadline):
                try:
                    r = q.get(timeout=0.5)
                    out[i] = r[1]
                except Exception:
                    s = session.SCENARIOS[i]
                    out[i] = {'name': s[1], 'functions': s[2], 'status': 'error', 'reason': 'scenario timed out or died',
                              'obligations': [], 'executed': [], 'contracts_used': [], 'trusted': [], 'solver_s': 0., 'paths': 0,
                              'infeasible': 0}
                if p.is_alive():
                    p.kill()
                del live[i]
        if deadline and time.time() - start > deadline and todo:
            for i in todo:
                s = session.SCENARIOS[i]
                out[i] = {'name': s[1], 'functions': s[2], 'status': 'error', 'reason': 'no time left', 'obligations': [], 'executed': [],
                          'contracts_used': [], 'trusted': [], 'solver_s': 0., 'paths': 0, 'infeasible': 0}
            todo = []
    return [out[i] for i in idxs]


ASSUMPTIONS = [
    'floating point numbers are treated as real numbers (no rounding, overflow or nan)',
    'numpy / scipy calls follow the contracts listed in trusted_base',
    'Python semantics as implemented by vc/interp.py (source re-read and re-executed symbolically on every run; doc strings, '
    'messages of exceptions, printing and plotting are dropped)',
    'termination is not proved (partial correctness)',
]


def main():
    p = argparse.ArgumentParser()
    p.add_argument('pid')
    p.add_argument('--repo', default='/repo')
    p.add_argument('--tier', default='quick')
    p.add_argument('--out')
    p.add_argument('--only')
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--budget', type=float, default=150.)
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    rs = run(a.repo, a.pid, a.budget, a.only, a.jobs, 390. if a.tier == 'quick' else None)
    fns, obl, trusted, bounded = {}, [], [], []
    be = {}
    vac = {}
    for r in rs:
        bad = [o for o in r['obligations'] if o['status'] != 'discharged']
        ok = r['status'] == 'proved' and not bad
        for f in r['functions']:
            e = fns.setdefault(f, {'function': f, 'mode': 'proved', 'scenarios': [], 'obligations': 0})
            e['scenarios'].append('%s: %s%s' % (r['name'], r['status'] if not bad else 'failed', ' (%s)' % r['reason'] if r['reason'] else ''))
            e['obligations'] += len(r['obligations'])
            if r['status'] != 'proved':
                e['mode'] = 'bounded'
        if r['status'] != 'proved':
            bounded.append('%s: %s' % (r['name'], r['reason']))
        for o in r['obligations']:
            obl.append({'function': r['name'], 'name': o['name'], 'status': o['status'], 'backend': o['backend'], 'time': o['seconds'],
                        'detail': 'goal %s; path %s; %s' % (o['goal'][:600], (o['path'] or '')[-500:], o['model'][:600]) if o['status'] != 'discharged' else ''})
            if o['status'] == 'discharged':
                be[o['backend']] = be.get(o['backend'], 0) + 1
        for t in r['trusted']:
            if t not in trusted:
                trusted.append(t)
        for t in r['contracts_used']:
            t = 'contract of %s (used at call sites; its own obligations are in the check of the property that owns it)' % t
            if t not in trusted:
                trusted.append(t)
        vac[r['name']] = {'paths': r['paths'], 'infeasible_paths': r['infeasible'], 'assumptions_satisfiable': r.get('reachable', 'n/a')}
    res = {'functions': list(fns.values()), 'obligations': obl, 'trusted': trusted, 'assumptions': ASSUMPTIONS, 'by_backend': be,
           'solver_time': round(sum(r['solver_s'] for r in rs), 2), 'vacuity': vac, 'bounded': bounded}
    errs = [r for r in rs if r['status'] == 'error']
    if errs:
        res['engine_error'] = '; '.join('%s: %s' % (r['name'], r['reason']) for r in errs)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f)
    for r in rs if (a.v or not a.out) else []:
        bad = [o for o in r['obligations'] if o['status'] != 'discharged']
        print('%-11s %-60s paths %d+%d obl %d failed %d  %.1fs (z3 %.1fs) %s' % (
            r['status'], r['name'], r['paths'], r['infeasible'], len(r['obligations']), len(bad), r.get('wall_s', 0), r['solver_s'], r['reason']))
        if r.get('trace'):
            print(r['trace'])
        for o in bad[:4 if not a.v else 40]:
            print('    FAILED', o['name'], '\n       goal', o['goal'][:500], '\n       path', (o['path'] or '')[-700:], '\n      ', o['model'][:300].replace('\n', ' '))
    return 0


if __name__ == '__main__':
    sys.exit(main())
