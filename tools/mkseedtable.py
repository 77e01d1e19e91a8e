#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(root, 'DESIGN.md')
s = open(f).read()
head = s[:s.index('| bug | check | needs |')]
rows = ['| bug | check | needs |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'].replace('|', '/')))
open(f, 'w').write(head + '\n'.join(rows) + '\n')
