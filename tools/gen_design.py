#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/catch.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(root, 'DESIGN.md')
s = open(f).read()
mark = '<!-- planted -->\n'
head = s[:s.index(mark) + len(mark)]
catch = json.load(open(os.path.join(root, 'tools/catch.json')))
rows = ['| planted bug | needs, to manifest | found by its check as |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    n = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (n, str(m['needs']).replace('|', '/').replace('\n', ' '), catch.get(n, '?').replace('|', '/')))
open(f, 'w').write(head + '\n'.join(rows) + '\n')
