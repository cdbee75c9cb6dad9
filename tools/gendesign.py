#!/usr/bin/env python3
"""gendesign.py HEAD: fills the table of planted bugs into DESIGN.md."""
import glob, json, sys
rows = ["| planted bug | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'].replace('|', '\\|')))
s = open('/verif/DESIGN.md').read()
a, b = '<!-- planted -->\n', '<!-- /planted -->\n'
i, j = s.index(a) + len(a), s.index(b)
open('/verif/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
