#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    cb = m.get('caught_by') or [m['property']]
    rows.append((m['property'], i, m['needs'], m['what_it_breaks'], ', '.join(cb) if cb != ['none'] else 'not caught'))
rows.sort()
t = '## Table of planted bugs\n\n| planted bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
for p, i, n, b, c in rows:
    e = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    t += f'| {i} | {p} | {e(n)} | {e(b)} | {c} |\n'
f = root + '/DESIGN.md'
s = open(f).read()
k = s.find('## Table of planted bugs')
s = (s[:k] if k >= 0 else s.rstrip() + '\n\n') + t
open(f, 'w').write(s)
