"""Validate the planted bugs in seeded/ (a development tool; no check calls it).

    plant.py make FILE      write seeded/<id>/ from the specs in FILE (python: PLANTS = [dict(id, property, file, old, new, needs, breaks, demo)])
    plant.py run [ID ...]   per bug, in a scratch copy: tests, demo on both trees, checks; prints one line each
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
REPO = '/repo'
PY = '/opt/venv/bin/python'


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)


def scratch():
    d = tempfile.mkdtemp(prefix='plant-')
    sh(['cp', '-a', REPO, d + '/repo'], '/')
    return d


def make(fname):
    for p in runpy.run_path(fname)['PLANTS']:
        d = scratch()
        try:
            edits = p['edits'] if 'edits' in p else [(p['file'], p['old'], p['new'])]
            for f, old, new in edits:
                path = os.path.join(d, 'repo', f)
                s = open(path).read()
                if s.count(old) != 1:
                    raise SystemExit('%s: %d matches of %r' % (p['id'], s.count(old), old))
                open(path, 'w').write(s.replace(old, new))
            out = os.path.join(SEEDED, p['id'])
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(sh(['git', 'diff'], d + '/repo').stdout)
            open(out + '/demo.py', 'w').write(p['demo'].lstrip('\n'))
            open(out + '/demo.sh', 'w').write('#!/bin/bash\n# run in the source tree; exit 0 if the property holds for this input\n'
                                              'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\n'
                                              'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            os.chmod(out + '/demo.sh', 0o755)
            json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), open(out + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(d)


def tests(repo, work):
    sh('timeout 840 %s -m pytest -q -n 4 -p no:cacheprovider --timeout=300 --tb=no --disable-warnings --continue-on-collection-errors '
       '--basetemp=%s/tmp -o junit_family=xunit2 --junitxml=%s/junit.xml' % (PY, work, work), repo, dict(PYTHONPATH=repo))
    sh([PY, '/opt/vp/results.py', work + '/out.json', 'junit:' + work + '/junit.xml'], work)
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = next(base[k] for k in ('stable', 'passed', 'pass', 'tests') if k in base)
    got = json.load(open(work + '/out.json'))['passed']
    miss = [t for t in stable if t not in set(got)]
    # statistical tests fail now and then on the unchanged tree, too
    for t in list(miss):
        for i in range(6):
            r = sh('%s -m pytest -q -p no:cacheprovider --tb=no marxs -k %s' % (PY, t.split('::')[-1].split('[')[0]), repo, dict(PYTHONPATH=repo))
            if r.returncode == 0:
                miss.remove(t)
                break
    return miss


def run(name, checks=None):
    src = os.path.join(SEEDED, name)
    meta = json.load(open(src + '/meta.json'))
    d = scratch()
    try:
        repo = d + '/repo'
        shutil.copytree(src, d + '/demo')
        clean = sh(['bash', d + '/demo/demo.sh'], repo)
        ap = sh(['git', 'apply', src + '/patch.diff'], repo)
        if ap.returncode:
            return name, 'PATCH DOES NOT APPLY ' + ap.stderr
        bad = sh(['bash', d + '/demo/demo.sh'], repo)
        miss = tests(repo, d)
        res = []
        v2 = d + '/verif'
        sh(['cp', '-a', VERIF, v2], '/')
        for c in checks or [meta['property']]:
            r = sh(['./check', c, 'quick'], v2, dict(VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick', VERIF_SHARDS='4'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res.append('%s exit=%d violations=%d %s' % (c, r.returncode, len(v), (v[0][:150] if v else '')))
        ok = clean.returncode == 0 and bad.returncode not in (0,) and not miss
        return name, '%s demo clean=%d patched=%d%s broken tests=%s | %s' % (
            'COUNTS' if ok else 'INVALID', clean.returncode, bad.returncode,
            '' if clean.returncode == 0 else clean.stderr[-400:], [m.split('::')[-1] for m in miss], '; '.join(res))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        from concurrent.futures import ThreadPoolExecutor
        names = sys.argv[2:] or sorted(os.listdir(SEEDED))
        with ThreadPoolExecutor(2) as ex:
            for n, r in ex.map(run, names):
                print(n, r, flush=True)
