"""Behaviour-preserving edits: refac.py [SUBSTR] runs the deductive part on each (expected: no failed obligation)."""
import ast, json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from refac_list import R
from refac_list2 import R2
from refac_list3 import R3
from refac_list4 import R4
R = R + R2 + R3 + R4


def norm(t):
    """canonical layout: no comments, docstrings, line breaks (a fragment keeps its indentation)"""
    ind = len(t.lstrip('\n')) - len(t.lstrip('\n').lstrip(' '))
    try:
        tree = ast.parse(textwrap.dedent(t))
    except SyntaxError:
        return '\n'.join(l.rstrip() for l in t.split('\n') if l.strip() and not l.strip().startswith('#'))
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(getattr(n.body[0], 'value', None), ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return textwrap.indent('\n'.join(l for l in ast.unparse(tree).split('\n') if l.strip()), ' ' * ind)


def one(i):
    name, pids, edits = R[i]
    d = tempfile.mkdtemp(prefix='rf_', dir='/tmp')
    try:
        shutil.copytree('/repo/pympc', os.path.join(d, 'pympc'))
        for f, old, new in edits:
            p = os.path.join(d, 'pympc', f)
            t = norm(open(p).read())
            old = norm(old)
            if t.count(old) < 1:
                return name, 'NOMATCH %r' % old[:60]
            open(p, 'w').write(t.replace(old, new, 1))
        out = []
        for pid in pids:
            r = subprocess.run(['python3-vt', os.path.join(HERE, 'vc', 'run.py'), pid, '--repo', d, '--jobs', '3'], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True)
            for l in r.stdout.splitlines():
                if (l[:4] not in ('    ', 'prov') and 'paths' in l) or 'FAILED' in l:
                    out.append(pid + ' ' + l.strip()[:160])
        if '--tests' in sys.argv:
            env = dict(os.environ, PYTHONPATH=d + ':/opt/vp/plugins', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR=d)
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', 'pympc'], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if p.returncode:
                out.append('TESTS FAIL ' + p.stdout[-300:])
        return name, '\n      '.join(out) if out else 'quiet'
    finally:
        shutil.rmtree(d, ignore_errors=True)


sel = [i for i, r in enumerate(R) if len(sys.argv) < 2 or sys.argv[1] in r[0]]
with ThreadPoolExecutor(3) as ex:
    for n, r in ex.map(one, sel):
        print('%-40s %s' % (n, r))
        sys.stdout.flush()
