#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md section 7 from seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in ('seeded', 'planted_extra'):
    for f in sorted(glob.glob(os.path.join(V, d, '*', 'meta.json'))):
        m = json.load(open(f))
        rows.append((m['property'], os.path.basename(os.path.dirname(f)), d, m['needs'], m['what_it_breaks']))
print('| caught by | change | needs | breaks |\n|---|---|---|---|')
for p, n, d, a, b in sorted(rows):
    print('| %s | `%s`%s | %s | %s |' % (p, n, '' if d == 'seeded' else ' (extra)', a.replace('|', '/'), b.replace('|', '/')))
