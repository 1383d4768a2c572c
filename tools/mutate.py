"""Mutation campaign, a development tool (no check uses it): seeds small semantic changes in scratch copies of the
repository, keeps those the stable tests do not notice, and runs the checks of the properties whose evidence lists the
changed function. usage:
  mutate.py gen  OUT.jsonl [FILE...]       every candidate mutation
  mutate.py test IN.jsonl OUT.jsonl [N]    a random sample of N through the tests; the survivors
  mutate.py check IN.jsonl OUT.jsonl       runs the checks on the survivors
"""
import ast
import difflib
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import warnings
from concurrent.futures import ThreadPoolExecutor, as_completed

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MUTATE_REPO', '/repo')
SCRATCH = '/tmp/mut'
FILES = ['datastructures.py', 'interpolators.py', 'operations.py', 'storages.py', 'transformations.py', 'units.py',
         'utilities.py', 'models/base.py', 'models/forecasters.py', 'models/reconstructors.py',
         'models/anomaly_detectors.py']

CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: [], ast.IsNot: [], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Mod: None}
SWAP = {'start': 'end', 'end': 'start', 'min': 'max', 'max': 'min'}
CALLSTRIP = {'deepcopy', 'copy', 'dict', 'list', 'abs', 'sorted', 'set', 'float', 'int', 'duplicate'}
SKIP = {'plot', 'inspect', '_plot_averages', 'summary', '_summary', '__repr__', '__str__', 'fit_arima', 'detect_periodicity',
        'os_shell', 'ensure_reproducibility', 'adherence', 'from_df', 'to_df'}
SKIPCLASS = {'DistributionFunction', '_Gaussian', '_ProphetModel', '_ARIMAModel', 'ProphetForecaster', 'ARIMAForecaster',
             'AARIMAForecaster', 'ProphetReconstructor', '_KerasModel'}


def candidates(rel):
    src = open(os.path.join(REPO, 'timeseria', rel)).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(fn, n, new, kind):
        a, b = span(n)
        out.append(dict(file=rel, func=fn, line=n.lineno, a=a, b=b, old=raw[a:b].decode(), new=new, kind=kind))

    def visit(n, fn, inraise):
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            if isinstance(n, ast.Raise):
                add(fn, n, 'pass', 'noraise')
            return
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'logger':
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                add(fn, n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), 'cmp')
        if isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(fn, n, '(%s) %s (%s)' % (text(n.left), BIN[type(n.op)], text(n.right)), 'bin')
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                rest = [text(v) for j, v in enumerate(n.values) if j != i]
                op = ' and ' if isinstance(n.op, ast.And) else ' or '
                add(fn, n, '(' + op.join('(%s)' % r for r in rest) + ')', 'dropcond')
        if isinstance(n, ast.If):
            t = n.test
            if not isinstance(t, ast.BoolOp):
                add(fn, t, 'False', 'iffalse')
                add(fn, t, 'True', 'iftrue')
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(fn, n, repr(n.value + 1), 'const')
            if n.value:
                add(fn, n, repr(n.value - 1), 'const')
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(fn, n, repr(not n.value), 'bool')
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(fn, n, '%s.%s' % (text(n.value), SWAP[n.attr]), 'swap')
        if isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if isinstance(n.func, ast.Name) and name in CALLSTRIP and len(n.args) == 1 and not n.keywords:
                add(fn, n, '(%s)' % text(n.args[0]), 'callstrip')
            if isinstance(n.func, ast.Attribute) and name in ('copy', 'duplicate') and not n.args:
                add(fn, n, '(%s)' % text(n.func.value), 'callstrip')
            if name in ('min', 'max') and isinstance(n.func, ast.Name):
                add(fn, n.func, SWAP[name], 'swap')
            for k in n.keywords:
                if k.arg and not isinstance(k.value, ast.Constant):
                    parts = [text(x) for x in n.args] + [('%s=%s' % (x.arg, text(x.value)) if x.arg else '**' + text(x.value))
                                                         for x in n.keywords if x is not k]
                    add(fn, n, '%s(%s)' % (text(n.func), ', '.join(parts)), 'dropkw')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) or (
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            add(fn, n, 'pass', 'delete')
        if isinstance(n, ast.AugAssign):
            add(fn, n, '%s = %s' % (text(n.target), text(n.value)), 'aug')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(fn, n, text(n.operand), 'not')
        for c in ast.iter_child_nodes(n):
            visit(c, fn, inraise)

    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                if c.name not in SKIPCLASS:
                    walk(c, pre + [c.name])
            elif isinstance(c, ast.FunctionDef):
                if c.name not in SKIP:
                    for s in c.body:
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        visit(s, '.'.join(pre + [c.name]), False)
    walk(tree, [])
    good = []
    for m in out:
        new = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            compile(new, rel, 'exec')
        except (SyntaxError, ValueError):
            continue
        good.append(m)
    return good


def apply(m, root):
    p = os.path.join(root, 'timeseria', m['file'])
    raw = open(os.path.join(REPO, 'timeseria', m['file'])).read().encode()
    open(p, 'wb').write(raw[:m['a']] + m['new'].encode() + raw[m['b']:])


def restore(m, root):
    shutil.copy(os.path.join(REPO, 'timeseria', m['file']), os.path.join(root, 'timeseria', m['file']))


def scratch(k):
    root = '%s/w%d' % (SCRATCH, k)
    if not os.path.exists(root + '/repo'):
        os.makedirs(root, exist_ok=True)
        shutil.copytree(REPO, root + '/repo', symlinks=True)
    return root


def run_tests(m, root):
    """True if the stable tests all pass (stopping at the first failure)."""
    apply(m, root + '/repo')
    try:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', MPLBACKEND='Agg',
                   MPLCONFIGDIR='/root/.cache/matplotlib', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   PYTHONPATH=root + '/repo')
        ids = []
        for t in json.load(open('/opt/vp/BASELINE.json'))['stable']:
            mod, test = t.split('::')
            parts = mod.split('.')
            ids.append('/'.join(parts[:3]) + '.py::' + parts[3] + '::' + test)
        ids.sort(key=lambda i: ('datastr' not in i, 'models' in i))
        r = subprocess.run(['timeout', '200', '/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider',
                            '--timeout=60'] + ids, cwd=root + '/repo', env=env, capture_output=True, text=True)
        return r.returncode == 0
    finally:
        restore(m, root + '/repo')


def pool(items, work, n):
    from queue import Queue
    free = Queue()
    for k in range(n):
        free.put(scratch(k))

    def one(m):
        root = free.get()
        try:
            return m, work(m, root)
        finally:
            free.put(root)
    with ThreadPoolExecutor(n) as ex:
        for f in as_completed([ex.submit(one, m) for m in items]):
            yield f.result()


def main():
    cmd = sys.argv[1]
    if cmd == 'gen':
        with open(sys.argv[2], 'w') as f:
            for rel in sys.argv[3:] or FILES:
                for m in candidates(rel):
                    f.write(json.dumps(m) + '\n')
    elif cmd == 'test':
        ms = [json.loads(l) for l in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {(d['file'], d['a'], d['b'], d['new']) for d in map(json.loads, open(sys.argv[3]))}
        if os.path.exists(sys.argv[3] + '.killed'):
            done |= {(d['file'], d['a'], d['b'], d['new']) for d in map(json.loads, open(sys.argv[3] + '.killed'))}
        ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
        random.Random(int(os.environ.get('SEED', '7'))).shuffle(ms)
        if len(sys.argv) > 4:
            ms = ms[:int(sys.argv[4])]
        if not run_tests(dict(file='units.py', a=0, b=0, new=''), scratch(0)):
            sys.exit('the tests fail on the unchanged tree')
        with open(sys.argv[3], 'a') as f, open(sys.argv[3] + '.killed', 'a') as g:
            for m, r in pool(ms, run_tests, int(os.environ.get('N', '7'))):
                if r:
                    f.write(json.dumps(m) + '\n')
                    f.flush()
                else:
                    g.write(json.dumps(m) + '\n')
                    g.flush()
    elif cmd == 'check':
        cov = {}
        for p in sorted(glob.glob(HERE + '/evidence/C*.json')):
            d = json.load(open(p))
            for x in d['coverage'].get('functions_encoded', []):
                cov.setdefault(x, []).append((d['wall_s'], d['property']))
        ms = [json.loads(l) for l in open(sys.argv[2])]
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {(d['file'], d['a'], d['b'], d['new']) for d in map(json.loads, open(sys.argv[3]))}

        vf = SCRATCH + '/verif'
        shutil.rmtree(vf, ignore_errors=True)
        shutil.copytree(HERE, vf, ignore=shutil.ignore_patterns('.git', 'seeded', 'replays'))

        def work(m, root):
            key = '%s:%s' % (m['file'], m['func'])
            props = [p for w, p in sorted(cov.get(key, []))]
            apply(m, root + '/repo')
            res, killed = {}, None
            env = dict(os.environ, SYMX_REPO=root + '/repo', SYMX_FIRST='1', SYMX_JOBS=os.environ.get('J', '2'))
            try:
                for p in props:
                    try:
                        r = subprocess.run(['timeout', '600', './check.py', p, '--tier', 'quick'], cwd=vf, env=env,
                                           capture_output=True, text=True)
                    except Exception as e:
                        res[p] = str(e)
                        continue
                    res[p] = r.returncode
                    if r.returncode == 1:
                        killed = p
                        break
            finally:
                restore(m, root + '/repo')
            return dict(killed=killed, results=res)
        ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
        with open(sys.argv[3], 'a') as f:
            for m, r in pool(ms, work, int(os.environ.get('N', '4'))):
                f.write(json.dumps(dict(m, **r)) + '\n')
                f.flush()


if __name__ == '__main__':
    main()
