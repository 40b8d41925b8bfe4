#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
Optional argument: a file with lines "bug (Cxx):  C01 C02 ..." of which checks caught it."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + '/DESIGN.md'
s = open(p).read()
mark = '<!-- planted bugs -->\n'
head, _, tail = s.partition(mark)
old = dict(re.findall(r'^\| ([\w-]+) \| (?:C\d\d) \| ([^|]*) \|', tail, re.M))
new = {}
if len(sys.argv) > 1:
    for m in re.finditer(r'^([\w-]+) \((C\d\d)\): +([C\d ]*)$', open(sys.argv[1]).read(), re.M):
        new[m[1]] = m[3].strip()
rows = ['| bug | of | caught by | needs |', '|---|---|---|---|']
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(root + '/seeded/' + b + '/meta.json'))
    by = new.get(b, old.get(b, m['property']))
    own = m['property']
    rows.append('| %s | %s | %s | %s |' % (b, own, by, m['needs'].replace('|', '/')))
open(p, 'w').write(head + mark + '\n'.join(rows) + '\n')
