"""Runtime-monitoring harness: cases, oracles, verdicts, evidence.

A property module registers *workloads*.  Each workload is a function that
drives the real code of /repo with generated input and feeds what it observes
to oracles through a ``Case``.  The harness derives one PRNG state per case
from (VERIF_SEED, workload name, case index), so every case can be replayed on
its own, and merges what the shards observed into one evidence file.

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2; a monitor was never reached or the harness
itself failed).
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
import types
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MAX_VIOL = 40


class Skip(Exception):
    """Raised by a case that turned out to be trivial / not applicable."""


class CpuLimit(BaseException):
    """A case used more CPU time than a bounded computation can need."""


class Registry:
    def __init__(self, prop, rule, require=None, assumptions=None):
        self.prop = prop
        self.rule = rule
        self.require = require or {}
        self.assumptions = assumptions or []
        self.workloads = []

    def __call__(self, quick, thorough, cpu=60, nshard=None):
        def deco(func):
            self.workloads.append(dict(name=func.__name__, func=func,
                                       quick=quick, thorough=thorough, cpu=cpu))
            return func
        return deco


def case_seed(seed, prop, name, idx):
    h = hashlib.sha256(f'{seed}|{prop}|{name}|{idx}'.encode()).digest()
    return int.from_bytes(h[:4], 'little')


def jsonable(x, depth=0):
    if depth > 6:
        return str(x)[:80]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, np.ndarray) and hasattr(x, 'unit'):
        return str(x)[:200]
    if isinstance(x, np.ndarray):
        if x.size > 40:
            return {'shape': list(x.shape), 'head': jsonable(x.ravel()[:8], depth + 1)}
        return jsonable(x.tolist(), depth + 1)
    if isinstance(x, (np.floating, float)):
        x = float(x)
        return x if np.isfinite(x) else repr(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    return str(x)[:200]


class Case:
    """One execution of a workload; the interface oracles use."""

    def __init__(self, mon, name, idx, seed):
        self.mon = mon
        self.name = name
        self.idx = idx
        self.seed = seed
        self.rng = np.random.default_rng(seed)
        self.info = {}
        self.nontrivial = False
        self.thorough = mon.tier == 'thorough'

    # -- what was observed -------------------------------------------------
    def note(self, **kw):
        """Describe the generated input (goes in samples and replays)."""
        self.info.update(kw)

    def count(self, key, n=1):
        n = int(n)
        if n:
            self.mon.counts[key] = self.mon.counts.get(key, 0) + n
            self.nontrivial = True

    def seen(self, key, value):
        """Count distinct values of something (states, classes ...)."""
        self.mon.distinct.setdefault(key, set()).add(str(value))

    # -- oracles -----------------------------------------------------------
    def check(self, cond, mech, msg='', **detail):
        self.mon.counts['oracle_evaluations'] = self.mon.counts.get('oracle_evaluations', 0) + 1
        ok = bool(np.all(cond))
        if not ok:
            self.mon.violation(self, mech, msg, detail)
        return ok

    def close(self, a, b, mech, msg='', rtol=1e-9, atol=1e-9, **detail):
        try:
            a = np.asarray(a, dtype=None)
            b = np.asarray(b, dtype=None)
            if a.shape != b.shape:
                np.broadcast_shapes(a.shape, b.shape)
            ok = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        except (ValueError, TypeError) as e:
            return self.check(False, mech, f'{msg}: not comparable ({e})', **detail)
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))[:3].tolist()
            with np.errstate(all='ignore'):
                try:
                    worst = float(np.nanmax(np.abs(np.atleast_1d(a - b)[~np.atleast_1d(ok)])))
                except Exception:
                    worst = None
            detail = dict(detail, first_bad=bad, worst=worst, got=a[~ok].ravel()[:4] if a.shape == ok.shape else a,
                          want=np.broadcast_to(b, ok.shape)[~ok].ravel()[:4])
        return self.check(ok, mech, msg, **detail)

    def same(self, a, b, mech, msg='', **detail):
        """Exact (bitwise up to nan) equality of arrays."""
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            return self.check(False, mech, f'{msg}: shape {a.shape} != {b.shape}', **detail)
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            ok = (a == b) | ((a != a) & (b != b))
        else:
            ok = a == b
        if not np.all(ok):
            detail = dict(detail, got=a[~ok].ravel()[:4], want=b[~ok].ravel()[:4])
        return self.check(ok, mech, msg, **detail)

    def raises(self, exc, func, mech, msg=''):
        try:
            func()
        except exc:
            return self.check(True, mech)
        except Exception as e:
            return self.check(False, mech, f'{msg}: raised {type(e).__name__} instead: {e}')
        return self.check(False, mech, f'{msg}: nothing was raised')

    def pvalue(self, p, mech, msg='', alpha=1e-9, **detail):
        self.mon.counts['statistical_tests'] = self.mon.counts.get('statistical_tests', 0) + 1
        return self.check(np.isfinite(p) and p >= alpha, mech, f'{msg} (p={p:.3g})', **detail)

    def skip(self):
        raise Skip()


class Monitor:
    def __init__(self, reg, tier, seed, shard=0, nshards=1, deadline=None):
        self.reg = reg
        self.tier = tier
        self.seed = seed
        self.shard = shard
        self.nshards = nshards
        self.deadline = deadline
        self.counts = {}
        self.distinct = {}
        self.evaluations = 0
        self.signatures = set()
        self.samples = {}
        self.violations = []
        self.nviol = 0
        self.known = {}
        self.errors = []
        self.skipped = 0
        self.truncated = False
        self.findings = load_findings(reg.prop)

    def violation(self, case, mech, msg, detail):
        for f in self.findings:
            if f['mech'] == mech:
                self.known[mech] = self.known.get(mech, 0) + 1
                return
        self.nviol += 1
        if len(self.violations) < MAX_VIOL and sum(v['mech'] == mech for v in self.violations) < 5:
            self.violations.append(dict(mech=mech, msg=str(msg), workload=case.name,
                                        case=case.idx, case_seed=case.seed,
                                        seed=self.seed, tier=self.tier,
                                        detail=jsonable(detail), input=jsonable(case.info)))

    def run_case(self, w, idx):
        seed = case_seed(self.seed, self.reg.prop, w['name'], idx)
        case = Case(self, w['name'], idx, seed)
        np.random.seed(seed % (2**32))
        nv = self.nviol

        def onalarm(sig, frame):
            raise CpuLimit()
        signal.signal(signal.SIGVTALRM, onalarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, w['cpu'], 1.)
        try:
            w['func'](case)
        except Skip:
            self.skipped += 1
            return
        except CpuLimit:
            self.violation(case, f'no-termination:{w["name"]}',
                           f'did not finish within {w["cpu"]} s of CPU time', {})
        except Exception as e:
            self.classify(case, w, e)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        self.evaluations += 1
        self.counts['cases:' + w['name']] = self.counts.get('cases:' + w['name'], 0) + 1
        if case.nontrivial:
            self.signatures.add(hashlib.md5((w['name'] + json.dumps(jsonable(case.info), sort_keys=True)
                                             + ('' if case.info else str(idx))).encode()).hexdigest())
        self.samples.setdefault(w['name'], [])
        if len(self.samples[w['name']]) < 2:
            self.samples[w['name']].append(dict(workload=w['name'], case=idx, case_seed=seed,
                                                input=jsonable(case.info),
                                                violations=self.nviol - nv))

    def classify(self, case, w, e):
        """An exception on valid input is a violation, unless it only says
        that the harness does not fit the tree (names that are gone)."""
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any(f.filename.startswith(REPO + '/') for f in tb)
        text = ''.join(traceback.format_exception(e))[-1500:]
        # Names that are looked up by the harness, but do not exist
        own = not tb or not tb[-1].filename.startswith(REPO + '/')
        harness_mismatch = isinstance(e, MemoryError) or (isinstance(e, (ImportError, NameError)) and own)
        if isinstance(e, AttributeError):
            obj = getattr(e, 'obj', None)
            cls = obj if isinstance(obj, type) else type(obj)
            here = any(k.__module__.split('.')[0] in ('marxs', 'vmon') for k in cls.__mro__)
            module = isinstance(obj, types.ModuleType)
            # An object of another kind (e.g. None) in place of the expected one is a result of the code
            harness_mismatch = (own and not inrepo and (module or here)) or cls.__module__.split('.')[0] == 'vmon' or cls is types.SimpleNamespace
        if harness_mismatch:
            self.errors.append(f'{w["name"]}[{case.idx}]: {text}')
        else:
            where = [f'{os.path.relpath(f.filename, REPO)}:{f.name}' for f in tb
                     if f.filename.startswith(REPO + '/')]
            site = where[-1] if where else 'oracle'
            self.violation(case, f'exception:{w["name"]}:{type(e).__name__}',
                           f'{type(e).__name__} on valid input at {site}: {e}', {'traceback': text})

    def run(self, only=None):
        plan = []
        for w in self.reg.workloads:
            n = w[self.tier]
            for i in range(n):
                plan.append((i / max(n, 1), w, i))
        # interleave workloads so that a truncated run covers all of them
        plan.sort(key=lambda t: (t[0], t[1]['name']))
        for k, (_, w, i) in enumerate(plan):
            if only is not None and (w['name'], i) != only:
                continue
            if only is None and k % self.nshards != self.shard:
                continue
            if self.deadline and time.time() > self.deadline:
                self.truncated = True
                break
            try:
                import marxs.utils  # noqa: F401  (sets its own warning filter)
            except Exception:
                pass
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.run_case(w, i)

    def result(self):
        return dict(counts=self.counts, distinct={k: sorted(v) for k, v in self.distinct.items()},
                    evaluations=self.evaluations, signatures=sorted(self.signatures),
                    samples=self.samples, violations=self.violations, nviol=self.nviol,
                    known=self.known, errors=self.errors, skipped=self.skipped,
                    truncated=self.truncated)


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [d for d in json.load(f)['findings']
                if d['property'] == prop and d.get('status', 'open') == 'open']


def merge(results):
    out = dict(counts={}, distinct={}, evaluations=0, signatures=set(), samples=[], violations=[],
               nviol=0, known={}, errors=[], skipped=0, truncated=False)
    samples = {}
    for r in results:
        for k, v in r['counts'].items():
            out['counts'][k] = out['counts'].get(k, 0) + v
        for k, v in r['distinct'].items():
            out['distinct'].setdefault(k, set()).update(v)
        for k, v in r['known'].items():
            out['known'][k] = out['known'].get(k, 0) + v
        out['evaluations'] += r['evaluations']
        out['signatures'].update(r['signatures'])
        out['violations'].extend(r['violations'])
        out['nviol'] += r['nviol']
        out['errors'].extend(r['errors'])
        out['skipped'] += r['skipped']
        out['truncated'] |= r['truncated']
        for k, v in r['samples'].items():
            samples.setdefault(k, []).extend(v)
    for k in sorted(samples):
        out['samples'].extend(samples[k][:1])
    return out


def _shard(args):
    modname, tier, seed, shard, nshards, deadline = args
    import importlib
    mod = importlib.import_module(modname)
    mon = Monitor(mod.W, tier, seed, shard, nshards, deadline)
    mon.run()
    return mon.result()


def main(prop, tier, seed, replay=None):
    import importlib
    import multiprocessing
    t0 = time.time()
    modname = 'vmon.props.' + prop.lower()
    evfile = os.path.join(VERIF, 'evidence', f'{prop}.json')
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    mod = importlib.import_module(modname)
    import marxs
    if not os.path.abspath(marxs.__file__).startswith(os.path.abspath(REPO) + '/'):
        print(f'INCONCLUSIVE: marxs was imported from {marxs.__file__}, not {REPO}')
        return 2
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        mon = Monitor(mod.W, rp['tier'], rp['seed'])
        mon.run(only=(rp['workload'], rp['case']))
        res = merge([mon.result()])
        for v in res['violations']:
            print(json.dumps(v, indent=1))
        for e in res['errors']:
            print(e)
        print('replayed: %d violation(s)' % res['nviol'])
        return 1 if res['nviol'] else 0

    nshards = int(os.environ.get('VERIF_SHARDS', min(8, os.cpu_count() or 1)))
    limit = float(os.environ.get('VERIF_BUDGET', 540 if tier == 'quick' else 3000))
    deadline = t0 + limit
    jobs = [(modname, tier, seed, i, nshards, deadline) for i in range(nshards)]
    if nshards == 1:
        results = [_shard(jobs[0])]
    else:
        from concurrent.futures import ProcessPoolExecutor
        ctx = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(nshards, mp_context=ctx) as pool:
            results = list(pool.map(_shard, jobs))
    res = merge(results)
    W = mod.W
    unreached = {k: [res['counts'].get(k, 0), n] for k, n in W.require.items()
                 if res['counts'].get(k, 0) < n}
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=res['evaluations'],
                            distinct_nontrivial=len(res['signatures']),
                            rule=W.rule,
                            samples=res['samples'] or [{'note': 'no case ran'}],
                            observed=dict(sorted(res['counts'].items())),
                            distinct_observed={k: dict(n=len(v), values=sorted(v)[:40])
                                               for k, v in sorted(res['distinct'].items())},
                            skipped_trivial=res['skipped'], truncated=res['truncated'],
                            shards=nshards, known_findings_seen=res['known']),
              assumptions=W.assumptions, wall_s=round(wall, 2), violations=res['nviol'])
    with open(evfile, 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    findings = load_findings(prop)
    for f in findings:
        if f['mech'] in res['known']:
            print(f"KNOWN-FINDING: property={prop} {f['what']}")
    print(f"{prop} {tier} seed={seed}: {res['evaluations']} cases, "
          f"{len(res['signatures'])} distinct non-trivial, "
          f"{res['counts'].get('oracle_evaluations', 0)} oracle evaluations, "
          f"{res['counts'].get('statistical_tests', 0)} statistical, {wall:.1f} s")
    if res['nviol']:
        seenm = {}
        for v in res['violations']:
            if v['mech'] in seenm:
                continue
            path = os.path.join('evidence', 'replay', f"{prop}-{len(seenm)}.json")
            seenm[v['mech']] = path
            with open(os.path.join(VERIF, path), 'w') as f:
                json.dump(dict(v, property=prop), f, indent=1)
            print(f"  [{v['mech']}] {v['workload']}[{v['case']}]: {v['msg'][:300]}")
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if res['errors']:
        print('INCONCLUSIVE: the harness failed in %d case(s):' % len(res['errors']))
        print(res['errors'][0])
        return 2
    if unreached:
        print(f'INCONCLUSIVE: monitors not reached [seen, needed]: {unreached}')
        return 2
    return 0
