#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. Development tool."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
ids = sorted(os.listdir(os.path.join(root, 'seeded')))
rows = ['| id | manifests with |', '|---|---|']
for i in ids:
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s |' % (i, m['needs'].replace('|', '\\|').replace('\n', ' ')))
a = s.index('| id | manifests with |')
b = s.index('\n\n', a)
s = s[:a] + '\n'.join(rows) + s[b:]
s = re.sub(r'`seeded/` holds \d+ changes', '`seeded/` holds %d changes' % len(ids), s)
open(p, 'w').write(s)
print(len(ids))
