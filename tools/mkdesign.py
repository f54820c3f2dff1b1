"""Puts the table of planted bugs into DESIGN.md (between the markers)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'coarsen-assumes-order': 'mirrored orders of records', 'supersample-half-window': 'factors 4 and 5',
          'backup-overwrites-tenth': 'numbered backups', 'centre-height-by-chord': 'sides of uneven height',
          'contour-limit-zero': 'one-sided colour limits'}
extra = os.path.join(ROOT, 'tools', 'missed.json')
if os.path.exists(extra):
    MISSED.update(json.load(open(extra)))
rows = ['| bug | check | needs | first missed |', '|----|----|----|----|']
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), MISSED.get(d, '')))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- bugs -->.*<!-- end -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
