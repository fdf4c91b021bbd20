#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md from tools/catches.json (written by plant.py)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(H + '/tools/catches.json'))
rows = ['| change | check | caught | what it breaks |', '|---|---|---|---|']
for i in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], {True: 'yes', False: '-', None: '?'}[c.get(i)], m['what_it_breaks']))
s = open(H + '/DESIGN.md').read()
s = re.sub(r'<!-- catches -->.*<!-- /catches -->', lambda _: '<!-- catches -->\n' + '\n'.join(rows) + '\n<!-- /catches -->', s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
