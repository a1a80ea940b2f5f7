#!/usr/bin/env python3
"""Rewrites the table of DESIGN.md section 8 from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), json.load(open(m))['property'],
                              json.load(open(m))['needs'].replace('|', '/'))
        for m in sorted(glob.glob(V + '/seeded/*/meta.json'))]
p = V + '/DESIGN.md'
s = open(p).read()
head = '| Change | Property | Needs |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = re.compile(r'^(?!\|)', re.M).search(s, i).start()
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
print(len(rows), 'rows')
