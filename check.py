"""Decides one property on /repo's current tree:  python3-vt check.py C01

1. vc/run.py re-reads the source of the functions under contract, generates the verification conditions and
   discharges them (canonical tensor algebra, z3);
2. rac/main.py evaluates the same contracts at run time on the real code (search for failing inputs; also the
   bounded stand-in for the functions the verifier does not reach).

Exit 0: held.  Exit 1 with a VIOLATION line: a failing input was found (replayed), or an obligation generated from
the current source is not discharged (line ends with no-failing-input-found).
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
VT = 'python3-vt'
PY = '/opt/venv/bin/python'


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return None, '', 'timeout after %s s' % timeout


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except Exception:
        return None


def run_vc(pid, tier, scratch):
    out = os.path.join(scratch, 'vc.json')
    limit = 420 if tier == 'quick' else 3600
    rc, o, e = sh([VT, os.path.join(HERE, 'vc', 'run.py'), pid, '--repo', REPO, '--tier', tier, '--out', out],
                  limit, {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0'}, HERE)
    r = load(out)
    if r is None:
        r = {'functions': [], 'obligations': [], 'engine_error': (e or o)[-3000:] or 'no output'}
    r['rc'] = rc
    return r


def run_rac(pid, seed, n, budget, scratch, tag, extra=()):
    out = os.path.join(scratch, 'rac_%s.json' % tag)
    env = {'PYTHONPATH': REPO, 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'MPLCONFIGDIR': scratch,
           'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
    cmd = [PY, os.path.join(HERE, 'rac', 'main.py'), pid, '--seed', str(seed), '--n', str(n), '--budget', str(budget),
           '--out', out] + list(extra)
    rc, o, e = sh(cmd, budget + 150, env, scratch)
    r = load(out)
    if r is None:
        r = {'evaluations': 0, 'failures': [], 'error': 'no result (exit %s): %s' % (rc, (e or o)[-1500:])}
    return r


def known():
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                out.append(line[len('known:'):].strip())
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_')
    try:
        return decide(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_lean(trusted):
    """Checks the Lean proofs of the mathematical rules that the contracts of this property used (independent of /repo)."""
    used = {}
    for t in trusted:
        m = re.match(r'rule proved in Lean \(lemmas/(\w+\.lean) ([\w ]+)\): (.*)', t)
        if m:
            for th in m.group(2).split():
                used.setdefault(m.group(1), {})[th] = m.group(3)
    ps = []
    for f in sorted(used):
        try:
            ps.append((f, subprocess.Popen(['lean', os.path.join(HERE, 'lemmas', f)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                           text=True, cwd='/tmp')))
        except OSError:
            ps.append((f, None))
    return used, ps


def end_lean(used, ps):
    out = []
    for f, p in ps:
        txt = ''
        if p is not None:
            try:
                txt = p.communicate(timeout=240)[0]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
        for th, rule in sorted(used[f].items()):
            m = re.search(r"'Pympc\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % th, txt)
            ax = re.split(r',\s*', m.group(2)) if m and m.group(2) else []
            ok = bool(m) and p.returncode == 0 and set(ax) <= {'propext', 'Classical.choice', 'Quot.sound'}
            out.append({'rule': rule, 'theorem': 'lemmas/%s %s' % (f, th), 'checked_by_lean_on_this_run': ok})
    return out


def decide(pid, tier, seed, scratch, t0):
    quick = tier == 'quick'
    vc = run_vc(pid, tier, scratch)
    lean = run_lean(vc.get('trusted', []))
    obls = vc.get('obligations', [])
    open_ = [o for o in obls if o['status'] != 'discharged']

    n, budget = (300, 75) if quick else (4000, 900)
    rac = run_rac(pid, seed, n, budget, scratch, 'a')
    failures = rac.get('failures', [])
    # an undischarged obligation: search harder for the failing input before answering without one
    # (and a function that is out of the verifier's reach is searched longer too)
    rounds = 3 if open_ else 1 if quick and any(x['mode'] != 'proved' for x in vc.get('functions', [])) else 0
    if not failures:
        for k in range(1, rounds + 1):
            r2 = run_rac(pid, seed + 1000 * k, n * 3, budget, scratch, 'b%d' % k)
            rac['evaluations'] = rac.get('evaluations', 0) + r2.get('evaluations', 0)
            if r2.get('failures'):
                failures = r2['failures']
                break
    # confirm by replaying: a failing input that does not fail again is not reported
    confirmed = None
    for f in failures[:5]:
        r3 = run_rac(pid, f['seed'], 1, 60, scratch, 'replay',
                     ['--case', f['case'], '--index', str(f['index'])])
        if r3.get('failures'):
            confirmed = f
            break

    kf = [k for k in known() if k.startswith('property=%s ' % pid)]
    for k in kf:
        print('KNOWN-FINDING: ' + k)

    edir = os.path.join(HERE, 'evidence')
    os.makedirs(edir, exist_ok=True)
    code = 0
    if confirmed is not None or open_:
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s.json' % pid)
        rec = {'property': pid, 'undischarged_obligations': open_[:20]}
        if confirmed is not None:
            rec['failing_input'] = confirmed
            rec['replay_cmd'] = ('cd /tmp && PYTHONPATH=/repo MPLBACKEND=Agg %s %s/rac/main.py %s --seed %s --n 1 --case %s '
                                 '--index %s' % (PY, HERE, pid, confirmed['seed'], confirmed['case'], confirmed['index']))
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        for o in open_[:8]:
            print('obligation not discharged: %s :: %s [%s] %s' % (o.get('function'), o['name'], o['status'],
                                                                  str(o.get('detail', ''))[:400]))
        if confirmed is not None:
            print('failing input: case %s seed %s index %s: %s' % (confirmed['case'], confirmed['seed'],
                                                                  confirmed['index'], confirmed['message']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        code = 1

    vc['lean'] = end_lean(*lean)
    write_evidence(pid, tier, seed, vc, rac, obls, open_, code, t0, edir)
    if code == 0:
        f = vc.get('functions', [])
        print('%s held: %d obligations discharged over %d functions under contract; %d run-time contract evaluations; '
              '%d bounded stand-ins' % (pid, len(obls) - len(open_), sum(1 for x in f if x['mode'] == 'proved'),
                                        rac.get('evaluations', 0), sum(1 for x in f if x['mode'] != 'proved')))
    return code


def write_evidence(pid, tier, seed, vc, rac, obls, open_, code, t0, edir):
    fns = vc.get('functions', [])
    proved = [x for x in fns if x['mode'] == 'proved']
    cov = {
        'obligations': len(obls),
        'discharged': len(obls) - len(open_),
        'checker_cmd': 'python3-vt vc/run.py %s --repo /repo' % pid,
        'trusted_base': [t for t in vc.get('trusted', []) if not t.startswith('rule proved in Lean')]
        + ['not checked on this run: %(rule)s (%(theorem)s)' % r for r in vc.get('lean', []) if not r['checked_by_lean_on_this_run']],
        'rules_proved_in_lean': vc.get('lean', []),
        'functions_under_contract': fns,
        'obligations_by_backend': vc.get('by_backend', {}),
        'solver_time_s': vc.get('solver_time', 0.),
        'obligation_list': [{k: o.get(k) for k in ('function', 'name', 'status', 'backend', 'time')} for o in obls],
        'vacuity': vc.get('vacuity', {}),
        'bounded': vc.get('bounded', []),
        'evaluations': rac.get('evaluations', 0),
        'distinct_nontrivial': rac.get('distinct', rac.get('evaluations', 0)),
        'rule': 'run-time evaluation of the same contracts on generated inputs (bounded; never counted as proved): '
                + ', '.join('%s %s' % kv for kv in sorted((rac.get('by_case') or {}).items())),
        'samples': rac.get('samples', [])[:3],
    }
    if vc.get('engine_error'):
        cov['engine_error'] = vc['engine_error']
    if rac.get('errors'):
        cov['oracle_errors'] = rac['errors'][:3]
    if rac.get('error'):
        cov['run_time_check_error'] = rac['error']
    level = 'proof' if proved and obls else 'exploration'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': vc.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': 1 if code else 0}
    with open(os.path.join(edir, '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
