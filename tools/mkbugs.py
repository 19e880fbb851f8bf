#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | check | needs |', '|---|---|---|']
for b in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['needs']} |")
p = f'{root}/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- bugs -->.*?<!-- end of bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- end of bugs -->', s, flags=re.S)
open(p, 'w').write(s)
