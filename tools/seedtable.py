#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |".replace("\n", " ") + "\n")
t = "| planted change | caught by | needs |\n|---|---|---|\n" + "".join(rows)
p = f'{V}/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: f'<!-- seeded -->\n{t}<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
