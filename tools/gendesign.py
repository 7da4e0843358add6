#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + the table of planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(f'{V}/tools/design_head.md').read().rstrip() + '\n\n'
out += '## 8. Planted bugs\n'
out += ('Each is kept in `seeded/<id>` and caught by the check of the property it breaks '
        '(`tools/trials/run.py check`). A miss found while planting was closed by strengthening the '
        'specification or the analyzer, never by special-casing the bug.\n\n')
out += '| seed | caught by | needs |\n|---|---|---|\n'
rows = []
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs'].replace('|', '/').replace('\n', ' ')))
for p, d, n in sorted(rows):
    out += f'| {d} | {p} | {n} |\n'
open(f'{V}/DESIGN.md', 'w').write(out)
