#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeds/caught.json
(caught.json: id -> check that caught it when last tried)."""
import json, glob, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
caught = json.load(open(R + '/tools/seeds/caught.json'))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*')):
    id = os.path.basename(d)
    m = json.load(open(d + '/meta.json'))
    rows.append(f"| {id} | {m['property']} | {m['needs'].replace('|', '/')} | {caught.get(id, 'not tried')} |")
s = open(R + '/DESIGN.md').read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->'
i, j = s.index(a) + len(a), s.index(b)
open(R + '/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
