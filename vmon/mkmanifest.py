"""Writes MANIFEST.json from the property list and the check modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vmon', 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
            technique='runtime monitoring: generated workloads on the real code, judged by independent oracles',
            level='exploration',
            level_note='Held on every execution observed (counts in the evidence file); inputs are sampled from '
                       'seeded generators, not exhausted. Distributional claims are decided with false-alarm '
                       'probability 1e-9 per test. Trusts numpy, scipy and astropy.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./check --selftest', checks=checks, not_applicable=na,
         notes='Pure Python target: no hooks in /repo are needed, the monitors wrap the public API at run time.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
