"""Development tool: apply each seeded patch to /repo, run the check of its property, undo."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(d + '/meta.json'))
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try:
        p = subprocess.run(['python3-vt', 'check.py', meta['property']], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    out = p.stdout.decode()
    v = [l for l in out.split('\n') if l.startswith('VIOLATION')]
    n = sum(1 for l in out.split('\n') if l.startswith('obligation not'))
    print(i, meta['property'], 'rc', p.returncode, 'CAUGHT' if v else 'MISSED', 'input' if v and 'no-failing' not in v[0] else 'proof-only' if v else '', 'open obligations:', n, flush=True)
    if '-v' in os.environ.get('V', ''):
        print(out)
