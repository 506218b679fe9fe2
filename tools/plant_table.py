#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
rows = []
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
s = open('/verif/DESIGN.md').read()
head = '| planted bug | property and check | what it breaks | needs |\n|---|---|---|---|\n'
i = s.index(head) + len(head)
j = i
while s[j:j+1] == '|':
    j = s.index('\n', j) + 1
open('/verif/DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
