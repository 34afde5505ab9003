"""Record fix commits of /repo in known_findings.json: fixed.py PROPERTY COMMIT..."""
import json
import subprocess
import sys
import os
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(P))
for c in sys.argv[2:]:
    h, s = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%H %s', c], capture_output=True,
                          text=True, check=True).stdout.strip().split(' ', 1)
    assert s.startswith('fix: ')
    e = dict(property=sys.argv[1], status='fixed', commit=h,
             what='fixed: property=%s %s %s' % (sys.argv[1], h[:7], s[5:]))
    if e not in d:
        d.append(e)
json.dump(d, open(P, 'w'), indent=1)
