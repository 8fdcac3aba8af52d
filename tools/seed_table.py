#!/usr/bin/env python3
"""Regenerates the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- seeds -->'
rows = []
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
t = open(R + '/DESIGN.md').read().split(MARK)[0].rstrip('\n')
t += f"\n\n{MARK}\n| planted bug | caught by the check of | what it breaks | what it needs |\n|---|---|---|---|\n" + '\n'.join(rows) + '\n'
open(R + '/DESIGN.md', 'w').write(t)
