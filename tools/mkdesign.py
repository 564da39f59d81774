#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md.

usage: mkdesign.py [results]   (lines "id property rc=N facet: message"; merged into seeded_results.txt)"""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
STORE = os.path.join(HERE, 'seeded_results.txt')
known = {}
for path in [STORE] + sys.argv[1:]:
    for line in open(path) if os.path.exists(path) else ():
        m = re.match(r'(\S+) (C\d\d) rc=(\d+) ?(.*)', line)
        if m:
            facet = m[4].split(': ')[0].split('/')[-1] if m[3] == '1' else ''
            known[m[1]] = (m[2], m[3], facet[:40])
rows, store = [], []
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
    prop, rc, facet = known.get(i, (meta['property'], '?', ''))
    how = {'1': 'caught by "%s"' % facet, '0': 'missed'}.get(rc, 'not run')
    rows.append('| %s | %s | %s | %s |' % (i, meta['what_it_breaks'].replace('|', '/'),
                                          meta['needs'].replace('|', '/'), how))
    store.append('%s %s rc=%s %s' % (i, prop, rc, facet))
open(STORE, 'w').write('\n'.join(store) + '\n')
path = os.path.join(ROOT, 'DESIGN.md')
text = open(path).read()
head, rest = text.split('<!-- seeded -->')
tail = rest.split('<!-- end -->')[1]
n = sum(' caught by ' in r for r in rows)
open(path, 'w').write(head + '<!-- seeded -->\n%d changes, %d caught.\n\n| id | what it breaks | needs | result |\n|---|---|---|---|\n' % (len(rows), n)
                      + '\n'.join(rows) + '\n<!-- end -->' + tail)
print(len(rows), n)
