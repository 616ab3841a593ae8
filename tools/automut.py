"""Self-test of the checks by generated mutants: automut.py OUT.jsonl [--n N] [--seed S] [--jobs J] [--file SUBSTR] [--func SUBSTR]
Every mutant is applied to a scratch copy; those that pass the stable tests are given to the deductive part (the scenarios that
execute the mutated function) and, if no obligation fails, to the run-time evaluation of the contracts."""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/pympc'
FILES = ['geometry/polyhedron.py', 'geometry/utils.py', 'dynamics/discrete_time_systems.py', 'dynamics/discretization_methods.py',
         'dynamics/utils.py', 'control/controllers.py', 'optimization/programs.py', 'optimization/parametric_programs.py',
         'optimization/solvers/pnnls.py', 'optimization/solvers/gurobi.py']
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
ATTR = {'A': 'C', 'C': 'A', 'b': 'd', 'd': 'b', 'nx': 'nu', 'nu': 'nx', 'Q': 'P', 'P': 'Q', 'R': 'Q', 'B': 'A'}
KEYS = {'u': 'x', 'x': 'u', 'A': 'C', 'b': 'd', 'uu': 'ux', 'xx': 'xu', 'multiplier_inequality': 'multiplier_equality'}


class Gen(object):
    def __init__(self, path):
        self.path = path
        self.src = open(os.path.join(SRC, path)).read()
        self.tree = ast.parse(self.src)
        self.starts = [0]
        for l in self.src.splitlines(True):
            self.starts.append(self.starts[-1] + len(l))
        self.out = []

    def pos(self, n):
        # (columns are utf8 offsets; the sources are ascii apart from comments)
        return (self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        a, b = self.pos(n)
        return self.src[a:b]

    def add(self, fn, n, new, what):
        a, b = self.pos(n)
        if self.src[a:b] != new:
            self.out.append({'file': self.path, 'func': fn, 'a': a, 'b': b, 'new': new, 'old': self.src[a:b], 'what': what, 'line': n.lineno})

    def functions(self):
        def go(body, pre):
            for x in body:
                if isinstance(x, ast.FunctionDef):
                    self.function(x, pre + x.name)
                elif isinstance(x, ast.ClassDef):
                    go(x.body, pre + x.name + '.')
        go(self.tree.body, '')
        return self.out

    def function(self, f, name):
        for st in f.body:
            if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                continue
            for n in ast.walk(st):
                self.node(name, n)

    def node(self, fn, n):
        t = self.text
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                self.add(fn, n, '%s %s %s' % (t(n.left), o, t(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            self.add(fn, n, '(%s %s %s)' % (t(n.left), BIN[type(n.op)], t(n.right)), 'binop')
            self.add(fn, n, t(n.left), 'drop right')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            self.add(fn, n, '(%s)' % t(n.operand), 'drop unary')
        if isinstance(n, ast.BoolOp):
            o = 'or' if isinstance(n.op, ast.And) else 'and'
            self.add(fn, n, '(' + (' %s ' % o).join(t(x) for x in n.values) + ')', 'bool')
            self.add(fn, n, t(n.values[0]), 'drop cond')
            self.add(fn, n, t(n.values[-1]), 'drop cond')
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                self.add(fn, n, str(not v), 'const')
            elif isinstance(v, (int, float)):
                for w in ([v + 1, v - 1] if isinstance(v, int) else [v * 2, -v, v * 1000.]):
                    self.add(fn, n, repr(w), 'const')
            elif v in KEYS:
                self.add(fn, n, repr(KEYS[v]), 'key')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            if n.attr == 'T':
                self.add(fn, n, t(n.value), 'drop T')
            elif n.attr in ATTR:
                self.add(fn, n, t(n.value) + '.' + ATTR[n.attr], 'attr')
        if isinstance(n, ast.Call):
            if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                self.add(fn, n, '%s(%s, %s)' % (t(n.func), t(n.args[1]), t(n.args[0])), 'swap args')
            nm = t(n.func)
            if nm in ('copy', 'np.copy', 'deepcopy', 'np.unique', 'sorted', 'list', 'np.abs', 'abs', 'np.array') and n.args:
                self.add(fn, n, t(n.args[0]), 'drop call')
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'flatten') and not n.args:
                self.add(fn, n, t(n.func.value), 'drop call')
            for a, b in (('min', 'max'), ('max', 'min'), ('np.vstack', 'np.hstack'), ('np.argmin', 'np.argmax'), ('np.argmax', 'np.argmin'),
                         ('all', 'any'), ('any', 'all'), ('np.zeros', 'np.ones'), ('np.ones', 'np.zeros'), ('np.where', 'np.nonzero')):
                if nm == a:
                    self.add(fn, n.func, b, 'call')
            if nm == 'range':
                m = '%s' % t(n.args[-1])
                pre = ''.join(t(x) + ', ' for x in n.args[:-1]) if len(n.args) <= 2 else None
                if pre is not None:
                    self.add(fn, n, 'range(%smin(%s, 5))' % (pre, m), 'guard: few iterations')
                    if len(n.args) == 1:
                        self.add(fn, n, 'range(%s if %s < 6 else %s - 1)' % (m, m, m), 'guard: last iteration')
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'dot':
                self.add(fn, n, '(lambda z: np.where(np.abs(z) > 1.e-3, z, 0.))(%s)' % t(n), 'guard: small numbers')
                self.add(fn, n, '(lambda z: z if np.max(np.abs(z)) < 1.e3 else 1.0001*z)(%s)' % t(n), 'guard: large numbers')
        if isinstance(n, ast.For) and isinstance(n.iter, (ast.Name, ast.Attribute)):
            self.add(fn, n.iter, 'list(%s)[:6]' % t(n.iter), 'guard: few iterations')
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare):
            self.add(fn, n.test, '(%s) and self.A.shape[1] < 5' % t(n.test), 'guard: dimension')
        if isinstance(n, ast.Slice):
            for e in (n.lower, n.upper):
                if e is not None:
                    self.add(fn, e, '(%s)+1' % t(e), 'slice')
        if isinstance(n, ast.Subscript) and not isinstance(n.slice, (ast.Slice, ast.Tuple)) and not isinstance(n.slice, ast.Constant):
            self.add(fn, n.slice, '(%s)-1' % t(n.slice), 'index')
        if isinstance(n, ast.If):
            self.add(fn, n.test, 'True', 'if')
            self.add(fn, n.test, 'False', 'if')
        if isinstance(n, (ast.Break, ast.Continue)):
            self.add(fn, n, 'pass', 'drop stmt')
        if isinstance(n, ast.AugAssign):
            self.add(fn, n, 'pass', 'drop stmt')
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            self.add(fn, n, 'pass', 'drop stmt')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(fn, n, 'pass', 'drop stmt')
        if isinstance(n, ast.List) and len(n.elts) == 2:
            self.add(fn, n, '[%s, %s]' % (t(n.elts[1]), t(n.elts[0])), 'swap')
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
            self.add(fn, n, '(%s, %s)' % (t(n.elts[1]), t(n.elts[0])), 'swap')


def mapping():
    code = ("import sys,json; sys.path.insert(0,%r); sys.setrecursionlimit(6000)\n"
            "from vc import run, session\n"
            "rs=run.run('/repo','all')\n"
            "print(json.dumps([[session.SCENARIOS[i][0], r['name'], sorted(set(r['executed'])|set(r['functions']))] for i,r in enumerate(rs)]))" % HERE)
    r = subprocess.run(['python3-vt', '-c', code], stdout=subprocess.PIPE, universal_newlines=True)
    return json.loads(r.stdout.splitlines()[-1])


VCCODE = ("import sys,json,time; sys.path.insert(0,%r); sys.setrecursionlimit(6000)\n"
          "from vc import run, session\n"
          "run.load()\n"
          "want=json.loads(sys.argv[2]); t0=time.time(); uns=[]\n"
          "for pid,name in want:\n"
          "    if time.time()-t0>float(sys.argv[3]): break\n"
          "    sc=[x for x in session.SCENARIOS if x[0]==pid and x[1]==name][0]\n"
          "    try: r=session.run_scenario(sys.argv[1], sc, 60)\n"
          "    except BaseException as e: uns.append([pid,name,str(e)[:80]]); continue\n"
          "    bad=[o['name'] for o in r['obligations'] if o['status']!='discharged']\n"
          "    if bad: print(json.dumps(['FAIL',pid,name,bad[0]])); sys.exit()\n"
          "    if r['status']!='proved': uns.append([pid,name,r['reason'][:80]])\n"
          "print(json.dumps(['PASS',uns]))" % HERE)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    l = b.get('stable') or b.get('passed') or b.get('tests') or b
    return l


def one(m, mp, opt):
    d = tempfile.mkdtemp(prefix='am_', dir='/tmp')
    try:
        shutil.copytree(SRC, os.path.join(d, 'pympc'))
        f = os.path.join(d, 'pympc', m['file'])
        t = open(f).read()
        open(f, 'w').write(t[:m['a']] + m['new'] + t[m['b']:])
        r = dict(m)
        try:
            compile(open(f).read(), f, 'exec')
        except SyntaxError:
            r['result'] = 'syntax'
            return r
        env = dict(os.environ, PYTHONPATH=d + ':/opt/vp/plugins', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR=d)
        try:
            p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-p', 'vp_seed', '--timeout=100'] + opt['desel'] + ['pympc'],
                               cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200, universal_newlines=True)
        except subprocess.TimeoutExpired:
            r['result'] = 'tests'
            return r
        if p.returncode != 0:
            r['result'] = 'tests'
            return r
        q = 'pympc.' + m['file'][:-3].replace('/', '.') + ':' + m['func']
        want = [(pid, name) for pid, name, fs in mp if q in fs]
        r['scenarios'] = len(want)
        r['pids'] = sorted(set(w[0] for w in want))
        try:
            p = subprocess.run(['python3-vt', '-c', VCCODE, d, json.dumps(want), '200'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400, universal_newlines=True)
            v = json.loads(p.stdout.splitlines()[-1])
        except Exception as e:
            v = ['ERR', str(e)[:100]]
        if v[0] == 'FAIL':
            r['result'], r['by'] = 'vc', v[1:]
            if not opt['rac']:
                return r
        else:
            r['vc'] = v
        env['PYTHONPATH'] = d
        for pid in r['pids'] or opt['pids'].get(m['file'], []):
            o = os.path.join(d, 'o.json')
            try:
                subprocess.run(['/opt/venv/bin/python', os.path.join(HERE, 'rac', 'main.py'), pid, '--seed', '1', '--n', '300', '--budget', '60', '--out', o],
                               cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                x = json.load(open(o))
            except Exception as e:
                continue
            if x.get('failures'):
                r['rac'] = [pid, x['failures'][0]['case'], str(x['failures'][0].get('message'))[:100]]
                r.setdefault('result', 'rac')
                return r
        r.setdefault('result', 'SURVIVED')
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--n', type=int, default=100)
    p.add_argument('--per', type=int, default=3, help='mutants per function and round')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--jobs', type=int, default=6)
    p.add_argument('--file', default='')
    p.add_argument('--func', default='')
    p.add_argument('--what', default='')
    p.add_argument('--rac', action='store_true', help='also run the run-time checks on mutants refused by the verifier')
    a = p.parse_args()
    muts = []
    for f in FILES:
        muts += Gen(f).functions()
    muts = [m for m in muts if 'plot' not in m['func'] and a.file in m['file'] and a.func in m['func'] and a.what in m['what']]
    rnd = random.Random(a.seed)
    rnd.shuffle(muts)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            x = json.loads(l)
            done.add((x['file'], x['a'], x['b'], x['new']))
    cnt, sel = {}, []
    for m in muts:
        k = (m['file'], m['func'])
        if cnt.get(k, 0) >= a.per or (m['file'], m['a'], m['b'], m['new']) in done:
            continue
        cnt[k] = cnt.get(k, 0) + 1
        sel.append(m)
    sel = sel[:a.n]
    print(len(muts), 'mutants,', len(sel), 'selected')
    base = json.load(open('/opt/vp/BASELINE.json'))
    desel = []
    for t in base.get('unstable', base.get('failing', [])) or []:
        desel += ['--deselect', t]
    mp = mapping()
    opt = {'desel': desel, 'rac': a.rac, 'pids': {}}
    for f in FILES:
        q = 'pympc.' + f[:-3].replace('/', '.') + ':'
        opt['pids'][f] = sorted(set(pid for pid, _, fs in mp if any(x.startswith(q) for x in fs)))
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as o:
        for r in ex.map(lambda m: one(m, mp, opt), sel):
            o.write(json.dumps(r) + '\n')
            o.flush()
            print(r['result'], r['file'], r['func'], r['line'], repr(r['old'][:50]), '->', repr(r['new'][:50]), r.get('by', ''), r.get('rac', ''))
            sys.stdout.flush()


if __name__ == '__main__':
    main()
