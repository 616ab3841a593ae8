"""Development tool: confirm planted bugs in a scratch copy and write seeded/<id>/.
usage: seedbug.py SPECFILE [ID...]   (SPECFILE defines BUGS: list of dicts id, property, file, edits, needs, breaks, demo)"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, LC_ALL='C.UTF-8', MPLBACKEND='Agg', MPLCONFIGDIR='/tmp/w/mpl', OPENBLAS_NUM_THREADS='1',
           OMP_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$HERE/demo.py"
'''
def run(cmd, cwd, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode()
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for b in g['BUGS']:
        if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
            continue
        w = '/tmp/w/seed_' + b['id']
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old)); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.check_output(['git', 'diff'], cwd=w).decode()
        # the removed lines have to be lines of the original repository
        base = {l for l in subprocess.check_output(['git', 'show', '6b58a54:' + b['edits'][0][0]], cwd='/repo').decode().split('\n')}
        new_lines = [l[1:] for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        foreign = [l for l in new_lines if l not in base]
        d = os.path.join(HERE, 'seeded', b['id'])
        t = '/tmp/w/seeddemo_' + b['id']
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        open(t + '/demo.sh', 'w').write(DEMO); os.chmod(t + '/demo.sh', 0o755)
        open(t + '/demo.py', 'w').write(b['demo'].lstrip())
        rc0, o0 = run(['bash', t + '/demo.sh'], '/repo')
        rc1, o1 = run(['bash', t + '/demo.sh'], w)
        rct, ot = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=300', 'pympc'], w,
                      dict(ENV, PYTHONPATH='/opt/vp/plugins'))
        good = rc0 == 0 and rc1 != 0 and rct == 0 and not foreign
        print(b['id'], 'OK' if good else 'REJECTED', 'demo', rc0, rc1, 'tests', rct, ot.strip().split('\n')[-1][:100], 'foreign', foreign[:2])
        if rc0 != 0: print(o0[-600:])
        if good:
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            open(d + '/patch.diff', 'w').write(diff)
            shutil.copy(t + '/demo.sh', d); shutil.copy(t + '/demo.py', d)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(t, ignore_errors=True)
main()
