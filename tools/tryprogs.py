"""Try programs: tools/tryprogs.py file.py... prints verdicts that are not ok (or all with -v)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness'))
import exec_check, vlib, nag, shutil
v = '-v' in sys.argv
paths = [os.path.abspath(a) for a in sys.argv[1:] if not a.startswith('-')]
nag.setup('/tmp/wd')
c = vlib.Check('try', 'x')
rs = exec_check.run_cases(c, [dict(path=os.path.abspath(p), key=os.path.basename(p), chk=True) for p in paths])
import collections
seen = set()
def short(x):
    x = str(x)
    return x if len(x) < 300 else x[-300:]
cnt = collections.Counter(r['verdict'] for r in rs)
for r in rs:
    if r['verdict'] == 'NoAnswer':
        if (r['key'], r['fn']) in seen: continue
        seen.add((r['key'], r['fn']))
        r['got'] = short(r['got'])
    if r['verdict'] == 'Rejected':
        print('Rejected', r['key'], r['got'].strip()[-600:])
        continue
    if v or r['verdict'] != 'ok' or ('-w' in sys.argv and (r.get('unk') or r.get('left'))):
        print(r['verdict'], r['key'], r['fn'], r['args'], 'EXP', r['exp'], 'GOT', r['got'], 'n', r.get('n'), 'left', r.get('left'), 'unk', r.get('unk'), r.get('why'))
print(dict(cnt), c.coverage)
shutil.rmtree(c.work, ignore_errors=True)
