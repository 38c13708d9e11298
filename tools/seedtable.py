#!/usr/bin/env python3
"""fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and seeded/caught.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
rows = []
for d in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append((m['property'], d, m['needs'], ', '.join(caught.get(d, [])) or 'not caught'))
rows.sort()
t = '\n'.join('| %s | %s | %s | %s |' % (b, p, n, c) for p, b, n, c in rows)
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
if '@@SEEDED@@' in s:
    s = s.replace('@@SEEDED@@', t)
else:
    s = re.sub(r'(\| bug \| property \| needs \| caught by \|\n\|---\|---\|---\|---\|\n)(?:\|.*\n)*', lambda m: m.group(1) + t + '\n', s)
open(p, 'w').write(s)
