"""Writes /verif/MANIFEST.json."""
import json, os
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
import importlib.util
spec = importlib.util.spec_from_file_location('m', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'claims.py'))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
props = [json.loads(l) for l in open(os.path.join(D, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in m.CLAIMS:
        level, tech, note = m.CLAIMS[i]
        checks.append(dict(property=i, quick_cmd='./check.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
                           technique=tech, level=level, level_note=note, evidence_file='evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason=m.NA.get(i, 'check not built yet')))
out = dict(version=1, setup_cmd='sh ./setup.sh', checks=checks, not_applicable=na)
if m.HOOKS:
    out['hooks'] = m.HOOKS
json.dump(out, open(os.path.join(D, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
