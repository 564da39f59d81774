#!/opt/venv/bin/python
"""addcorpus.py NAME replay.json...: keeps replays as regression inputs in corpus/<prop>/"""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name = sys.argv[1]
for path in sys.argv[2:]:
    d = json.load(open(path))
    folder = os.path.join(VERIF, 'corpus', d['property'])
    os.makedirs(folder, exist_ok=True)
    k = 0
    while True:
        out = os.path.join(folder, '%s%s.json' % (name, '-%d' % k if k else ''))
        if not os.path.exists(out):
            break
        if json.load(open(out))['case'] == d['case']:
            break
        k += 1
    with open(out, 'w') as fid:
        json.dump(dict(facet=d['facet'], case=d['case'], note=d.get('message', '')[:300]), fid)
        fid.write('\n')
