#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | what it needs |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)),
                                      m['property'], m['needs'].replace('|', '/')))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = s.index('<!-- planted -->'), s.index('<!-- /planted -->')
open(p, 'w').write(s[:a] + '<!-- planted -->\n' + '\n'.join(rows) + '\n' + s[b:])
print(len(rows) - 2)
