#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(V, 'seeded')
try:
    caught = json.load(open(os.path.join(V, 'tools', 'caught.json')))
except IOError:
    caught = {}
rows = ['| change | property | needs | caught by the quick check of |', '|---|---|---|---|']
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), caught.get(i, '(not run)')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
k = '## Planted changes'
s = s[:s.index(k)] + k + '''

Each row is a change in `seeded/<id>`: it compiles, passes the existing tests and breaks the property, with a demonstration. "Caught by" is the
result of running the quick check of the property on a tree with that change (`-`: missed).

''' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
