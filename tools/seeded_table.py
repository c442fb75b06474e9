#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/missed.txt (ID: what was strengthened)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {}
for l in open(root + '/tools/missed.txt'):
    if ':' in l:
        k, v = l.strip().split(':', 1); missed[k.strip()] = v.strip()
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['what_it_breaks'], m['needs'], missed.get(d, 'at once')))
rows.sort()
t = '| Check | Planted bug | What it breaks | Needs | Caught |\n|---|---|---|---|---|\n'
for r in rows:
    t += '| ' + ' | '.join(x.replace('|', '\\|').replace('\n', ' ') for x in r) + ' |\n'
p = root + '/DESIGN.md'; s = open(p).read()
b, e = '<!-- seeded table -->\n', '<!-- end of seeded table -->\n'
if b not in s:
    s += '\n## Planted bugs: which check catches which\n\nEach was written from the property text and the code, confirmed in a scratch copy (builds, passes the stable tests, its demo fails) and then run against the check of its property. "At once" means the check as it stood found it; otherwise the column says what the check was missing and now does.\n\n' + b + e
i, j = s.index(b) + len(b), s.index(e)
open(p, 'w').write(s[:i] + t + s[j:])
