#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json and harness/fake_properties.txt from the registered targets (vrun -list output on stdin)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg, fake, cur = {}, [], None
for l in sys.stdin:
    if not l.startswith(' '):
        cur = l.strip(); reg[cur] = []
    else:
        n, mode = l.split()[:2]
        reg[cur].append((n, mode))
ids = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in ids:
    i = p['id']
    if i not in reg:
        na.append(dict(property=i, reason='the check is not built yet'))
        continue
    modes = {m for _, m in reg[i]}
    if 'fake' in modes: fake.append(i)
    tech = 'property-based testing: rapid-generated cases against an explicit oracle, shrunk to a replay file; targets: ' + ', '.join(n for n, _ in reg[i])
    note = 'generated-input search; bounds and case counts are in the evidence file'
    if 'fake' in modes: note += '; the real programs run in virtual time (Go faketime), so timing is exact and repeatable'
    checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                       technique=tech, level='exploration', level_note=note))
fix = os.popen("git -C /repo log --format='%H %s'").read().split('\n')
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1); open(HERE + '/MANIFEST.json', 'a').write('\n')
open(HERE + '/harness/fake_properties.txt', 'w').write(''.join(i + '\n' for i in fake))
