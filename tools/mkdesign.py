#!/usr/bin/env python3
"""mkdesign.py [CATCH_LOG...]: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and logs of catch.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
t = open(p).read()
a, z = '<!-- seeded -->\n', '<!-- /seeded -->'
old = {}
for l in t[t.index(a):t.index(z)].splitlines():
    c = [x.strip() for x in l.strip('|').split('|')]
    if len(c) == 4:
        old[c[0]] = c[3]
for f in sys.argv[1:]:
    for l in open(f):
        w = l.split()
        if len(w) > 3 and w[2] in ('CAUGHT', 'MISSED'):
            old[w[0]] = '%s: %s' % (w[1], 'caught (%s)' % ', '.join(w[4:]) if w[2] == 'CAUGHT' else 'missed')
rows = ['| bug | what it breaks | needs | check |', '|---|---|---|---|']
bugs = sorted(os.listdir(os.path.join(V, 'seeded')))
for b in bugs:
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), old.get(b, m['property'] + ': not run yet')))
t = t[:t.index(a) + len(a)] + '%d bugs.\n\n' % len(bugs) + '\n'.join(rows) + '\n' + t[t.index(z):]
open(p, 'w').write(t)
