"""Self-test of the verifier: apply a textual mutation to a scratch copy of the repository and run the deductive checks on it.
vcmut.py PID FILE OLD NEW [--only NAME]   (exit 0 if some obligation fails)"""
import argparse
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = argparse.ArgumentParser()
p.add_argument('pid')
p.add_argument('file')
p.add_argument('old')
p.add_argument('new')
p.add_argument('--only')
a = p.parse_args()
d = tempfile.mkdtemp(prefix='vcmut')
try:
    shutil.copytree('/repo/pympc', os.path.join(d, 'pympc'))
    f = os.path.join(d, a.file)
    t = open(f).read()
    if a.old not in t:
        print('NOT FOUND', a.old)
        sys.exit(2)
    open(f, 'w').write(t.replace(a.old, a.new, 1))
    r = subprocess.run(['python3-vt', os.path.join(HERE, 'vc', 'run.py'), a.pid, '--repo', d] + (['--only', a.only] if a.only else []),
                       stdout=subprocess.PIPE, universal_newlines=True)
    bad = [l for l in r.stdout.splitlines() if 'FAILED' in l]
    uns = [l for l in r.stdout.splitlines() if l.startswith(('unsupported', 'error'))]
    print('%-9s %s -> %s' % ('KILLED' if bad else ('UNSUPP' if uns else 'SURVIVED'), a.old[:60], a.new[:60]))
    for l in (bad + uns)[:3]:
        print('     ', l[:200])
    sys.exit(0 if bad else 1)
finally:
    shutil.rmtree(d)
