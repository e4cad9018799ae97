"""Random small changes of the source, to find what neither tests nor checks see (a development tool; no check calls it).

    mutate.py SEED N WORKERS OUT.jsonl [FILE-PATTERN]
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def anchors():
    m = {}
    for l in open(VERIF + '/properties.jsonl'):
        p = json.loads(l)
        for f in set(re.findall(r'marxs/[\w/]+\.py', l)):
            m.setdefault(f, []).append(p['id'])
    for f, p in EXTRA.items():
        m[f] = m.get(f, []) + [q for q in p if q not in m.get(f, [])]
    return m


EXTRA = {'marxs/utils.py': ['C24', 'C34'], 'marxs/missions/chandra/chandra_global.py': ['C30'], 'marxs/missions/chandra/fitsheaders.py': ['C30', 'C32'],
         'marxs/missions/chandra/hrma_py.py': ['C30', 'C34'], 'marxs/missions/lynx/ralfgrating.py': ['C34', 'C29'], 'marxs/missions/lynx/load_csv.py': ['C34'],
         'marxs/missions/arcus/defaults.py': ['C34'], 'marxs/missions/arcus/arcus.py': ['C34'], 'marxs/missions/arcus/load_csv.py': ['C34'],
         'marxs/missions/arcus/utils.py': ['C34', 'C32'], 'marxs/missions/arcus/analyze_grid.py': ['C36', 'C25', 'C26'], 'marxs/missions/arcus/arfrmf.py': ['C36'], 'marxs/missions/arcus/ralfgrating.py': ['C34'], 'marxs/analysis/plots.py': ['C25', 'C24', 'C31'],
         'marxs/optics/base.py': ['C10', 'C33'], 'marxs/base/base.py': ['C10'], 'marxs/missions/athena/athecat.py': ['C34'], 'marxs/visualization/mayavi.py': ['C31'],
         'marxs/optics/detector.py': ['C01', 'C33'], 'marxs/optics/grating.py': ['C03'], 'marxs/math/geometry.py': ['C03', 'C22', 'C34'], 'marxs/missions/arcus/spo.py': ['C24']}


class Sites(ast.NodeVisitor):
    def __init__(self, src):
        self.out, self.src = [], src

    def add(self, node, new, what):
        self.out.append((node.lineno, node.col_offset, node.end_lineno, node.end_col_offset, new, what))

    def seg(self, n):
        return ast.get_source_segment(self.src, n)

    def visit_FunctionDef(self, n):
        if n.name in ('__repr__', '__str__'):
            return
        for d in n.args.defaults + n.args.kw_defaults:
            if d:
                self.visit(d)
        for s in n.body:
            self.visit(s)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_Raise(self, n):
        pass

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, 'pass', 'drop')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.Mod: '*', ast.Pow: '*', ast.FloorDiv: '/'}
        o = swap.get(type(n.op))
        if o and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, '((%s) %s (%s))' % (self.seg(n.left), o, self.seg(n.right)), 'op')
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.add(n, '(%s)' % self.seg(n.left), 'left')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        j = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + j.join('(%s)' % self.seg(v) for v in n.values) + ')', 'bool')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
            self.add(n, '(%s)' % self.seg(n.operand), 'unary')
        self.generic_visit(n)

    def visit_Compare(self, n):
        sw = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
        rev = {ast.Lt: '>', ast.LtE: '>', ast.Gt: '<', ast.GtE: '<'}
        if len(n.ops) == 1:
            for t in (sw, rev):
                if type(n.ops[0]) in t:
                    self.add(n, '((%s) %s (%s))' % (self.seg(n.left), t[type(n.ops[0])], self.seg(n.comparators[0])), 'cmp')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), 'const')
        elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            self.add(n, repr(n.value + 1 if isinstance(n.value, int) else n.value * 1.1 + (.1 if n.value == 0 else 0)), 'const')

    def visit_Call(self, n):
        f = self.seg(n.func)
        sw = {'np.sin': 'np.cos', 'np.cos': 'np.sin', 'np.arctan2': None, 'np.abs': '(lambda x: x)', 'np.min': 'np.max', 'np.max': 'np.min', 'np.sum': 'np.mean', 'np.mean': 'np.sum',
              'np.ceil': 'np.floor', 'np.floor': 'np.ceil', 'deepcopy': '(lambda x: x)', 'copy': '(lambda x: x)', 'copy.copy': '(lambda x: x)', 'copy.deepcopy': '(lambda x: x)',
              'norm_vector': '(lambda x: x)', 'np.any': 'np.all', 'np.all': 'np.any', 'np.sqrt': 'np.abs', 'min': 'max', 'max': 'min', 'np.clip': None, 'np.arcsin': 'np.arctan', 'np.tan': 'np.sin'}
        if sw.get(f):
            self.add(n.func, sw[f], 'func')
        for k in n.keywords:
            if k.arg and len(n.args) + len(n.keywords) > 1:
                a = ', '.join([self.seg(x) for x in n.args] + [('%s=%s' % (q.arg, self.seg(q.value)) if q.arg else '**' + self.seg(q.value)) for q in n.keywords if q is not k])
                self.add(n, '%s(%s)' % (f, a), 'kwarg')
        self.generic_visit(n)

    def visit_If(self, n):
        self.add(n.test, 'not (%s)' % self.seg(n.test), 'if')
        self.add(n.test, 'True', 'if')
        self.generic_visit(n)

    def visit_Subscript(self, n):
        s = self.seg(n.slice)
        if s and s.count(':') == 1 and isinstance(n.slice, ast.Slice):
            pass
        self.generic_visit(n)


def apply(src, site):
    l0, c0, l1, c1, new, what = site
    lines = src.encode().split(b'\n')
    off = lambda l, c: sum(len(x) + 1 for x in lines[:l - 1]) + c
    b = src.encode()
    return (b[:off(l0, c0)] + new.encode() + b[off(l1, c1):]).decode()


def sh(cmd, cwd, env=None, timeout=1500):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    e.update(env or {})
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


BASE = json.load(open('/opt/vp/BASELINE.json'))
STABLE = set(next(BASE[k] for k in ('stable', 'passed', 'pass', 'tests') if k in BASE))


def tests(repo, work):
    r = sh('timeout 600 %s -m pytest -q -n 2 -p no:cacheprovider --timeout=120 --tb=no --disable-warnings --continue-on-collection-errors --maxfail=32 '
           '--basetemp=%s/tmp -o junit_family=xunit2 --junitxml=%s/junit.xml' % (PY, work, work), repo, dict(PYTHONPATH=repo))
    if r is None or not os.path.exists(work + '/junit.xml'):
        return ['timeout']
    sh([PY, '/opt/vp/results.py', work + '/out.json', 'junit:' + work + '/junit.xml'], work)
    got = json.load(open(work + '/out.json'))
    bad = [t for t in STABLE if t not in set(got['passed'])]
    return [t for t in bad if 'resolvingpower_consistency' not in t and 'gaussiandistribution_of' not in t]


def one(job):
    f, site, checks, k = job
    d = tempfile.mkdtemp(prefix='mut-')
    res = dict(n=k, file=f, line=site[0], kind=site[5])
    try:
        sh(['cp', '-a', '/repo', d + '/repo'], '/')
        path = os.path.join(d, 'repo', f)
        src = open(path).read()
        new = apply(src, site)
        open(path, 'w').write(new)
        res['diff'] = '\n'.join(l for l in sh(['git', 'diff', '-U0'], d + '/repo').stdout.split('\n')[4:])[:600]
        try:
            compile(new, f, 'exec')
        except SyntaxError:
            res['result'] = 'syntax'
            return res
        miss = tests(d + '/repo', d)
        if miss:
            res['result'] = 'tests'
            return res
        shutil.copytree(VERIF, d + '/verif', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__'))
        res['checks'] = {}
        for c in checks:
            r = sh(['./check', c, 'quick'], d + '/verif', dict(VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick', VERIF_SHARDS='2'), 1500)
            rc = r.returncode if r else 'timeout'
            res['checks'][c] = rc
            if rc == 1:
                res['result'] = 'caught'
                res['by'] = c
                m = re.search(r'\[.*', r.stdout)
                res['how'] = m.group(0)[:150] if m else ''
                return res
        res['result'] = 'SURVIVED' if all(v == 0 for v in res['checks'].values()) else 'NOANSWER'
        return res
    except Exception as e:
        res['result'] = 'error ' + repr(e)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(seed, n, workers, out, pat='.'):
    rng = random.Random(seed)
    A = anchors()
    files = {}
    for root, _, fs in os.walk('/repo/marxs'):
        if re.search(r'/tests?$|/data|visualization/utils_test|/extern', root):
            continue
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), '/repo')
            if f.endswith('.py') and not f.startswith('_') and f not in ('setup_package.py', 'conftest.py', 'marx.py', 'marx_build.py', 'version.py') and re.search(pat, p):
                src = open('/repo/' + p).read()
                s = Sites(src)
                s.visit(ast.parse(src))
                if s.out:
                    files[p] = s.out
    names = sorted(files)
    w = [len(files[f])**.6 for f in names]
    jobs = []
    seen = set()
    while len(jobs) < n:
        f = rng.choices(names, w)[0]
        s = rng.choice(files[f])
        if (f, s) in seen:
            if len(seen) > .9 * sum(map(len, files.values())):
                break
            continue
        seen.add((f, s))
        jobs.append((f, s, A.get(f, [])[:9] or ['C33'], len(jobs)))
    with ThreadPoolExecutor(workers) as ex, open(out, 'a') as o:
        for r in ex.map(one, jobs):
            o.write(json.dumps(r) + '\n')
            o.flush()


if __name__ == '__main__':
    main(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], *sys.argv[5:])
