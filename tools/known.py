"""List the violations of evidence/replay-PROP.json in known_findings.json: known.py PROPERTY KEY-PREFIX WHAT."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(V, 'known_findings.json')
d = json.load(open(P))
prop, prefix, what = sys.argv[1:4]
n = 0
for v in json.load(open(os.path.join(V, 'evidence', 'replay-%s.json' % prop))):
    if v['key'].startswith(prefix):
        e = dict(property=prop, status='known', key=v['key'], clause=v['clause'], what='%s (%s)' % (what, v['key']))
        if e not in d:
            d.append(e)
            n += 1
json.dump(d, open(P, 'w'), indent=1)
print(n)
