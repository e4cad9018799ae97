"""Rewrite the generated part of DESIGN.md (planted bugs and defects found)."""
import collections
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Planted bugs and what catches them'


def main():
    text = open(os.path.join(here, 'DESIGN.md')).read().split(MARK)[0].rstrip() + '\n\n'
    out = [MARK, '', 'Each change in `seeded/` passes the stable tests of the repository; its demonstration fails with it and passes without it. All were '
           'run against the quick tier of the check of their property with seed 1 (`vmon/plant.py run`).', '', '| change | check | needs |', '|---|---|---|']
    for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        out.append(f'| {os.path.basename(os.path.dirname(f))} | {m["property"]}: {m.get("caught", "caught")} | {m["needs"]} |')
    k = json.load(open(os.path.join(here, 'known_findings.json')))
    n = collections.Counter(s.split('property=')[1].split()[0] for s in k['fixed'])
    out += ['', '## Defects found', '', f'{len(k["fixed"])} defects were repaired with `fix:` commits (listed in `known_findings.json`; the checks report them again if '
            'they return): ' + ', '.join(f'{p} {n[p]}' for p in sorted(n)) + '.', '', 'Recorded, not repaired:', '']
    for f in k['findings']:
        out.append(f'* {f["property"]} `{f["mech"]}` ({f["where"]}): {f["what"]}. Not repaired: {f["why_not_fixed"]}.')
    open(os.path.join(here, 'DESIGN.md'), 'w').write(text + '\n'.join(out) + '\n')


main()
