"""Plant a bug: make /verif/seeded/<id> from textual edits, confirm the demo both ways and the stable tests.

A seed file (python) defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)],
prog='<program>' (demo: translate, execute with Silver.tla and compare with CPython) or demo='<python>')].
usage: mkseed.py SEEDFILE [id ...]   (-c: run the property's check against the patched copy as well)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '386efb4'
HARNESS = ['nag.py', 'vlib.py', 'ir.py', 'exec_check.py', 'pyoracle.py', 'svc.py']
SPECS = ['Silver.tla', 'SilverConf.tla', 'SilverConf.cfg']
EXEC = '''"""Translates prog.py with the code in /repo, executes the result, compares with CPython."""
import os, shutil, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'harness'))
import exec_check, vlib
c = vlib.Check('demo', 'demo')
opts = %r
rs = exec_check.run_cases(c, [dict(path=os.path.join(H, 'prog.py'), key='prog.py', opts=opts, chk=True)])
shutil.rmtree(c.work, ignore_errors=True)
bad = [r for r in rs if r['verdict'] != 'ok']
for r in bad[:5]:
    print(r['verdict'], r['fn'], r['args'], 'expected', r['exp'], 'got', str(r['got'])[:300])
print(len(rs), 'cases', len(bad), 'wrong')
sys.exit(1 if bad or not rs else 0)
'''
SH = '''#!/bin/sh
export NAGINI_REPO="${NAGINI_REPO:-$(pwd)}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAVA_HOME=/usr/lib/jvm/java-17-openjdk-amd64
unset PYTHONPATH
cd "$(dirname "$0")" && exec timeout 280 /opt/venv/bin/python demo.py
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def apply(wt, edits):
    for f, old, new in edits:
        p = os.path.join(wt, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: pattern found %d times: %r' % (f, s.count(old), old[:80]))
        open(p, 'w').write(s.replace(old, new))


def original(wt, diff):
    """the removed lines must be lines of the original repository."""
    cur, bad = None, []
    base = {}
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
            base[cur] = sh('git', '-C', '/repo', 'show', BASE + ':' + cur).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in base[cur]:
            bad.append(l)
    return bad


def make(s, check):
    d = os.path.join(VERIF, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='seed_')
    wt = os.path.join(tmp, 'wt')
    try:
        shutil.copytree('/repo', wt, symlinks=True)
        sh('git', '-C', wt, 'checkout', '-q', '--', '.')
        apply(wt, s['edits'])
        diff = sh('git', '-C', wt, 'diff').stdout
        bad = original(wt, diff)
        if bad:
            print(s['id'], 'WARN changes lines not in the original:', bad[:3])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        hs, sp = s.get('harness', HARNESS), s.get('specs', SPECS)
        if 'prog' in s:
            open(os.path.join(d, 'prog.py'), 'w').write(s['prog'])
            open(os.path.join(d, 'demo.py'), 'w').write(EXEC % (s.get('opts', {}),))
        else:
            open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
            sp = s.get('specs', [])
        for n, t in s.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        if hs:
            os.makedirs(os.path.join(d, 'harness'))
            for h in hs:
                shutil.copy(os.path.join(VERIF, 'harness', h), os.path.join(d, 'harness', h))
            shutil.copytree(os.path.join(VERIF, 'harness', 'fakejvm'), os.path.join(d, 'harness', 'fakejvm'),
                            ignore=shutil.ignore_patterns('__pycache__'))
        if sp:
            os.makedirs(os.path.join(d, 'spec'))
            for x in sp:
                shutil.copy(os.path.join(VERIF, 'spec', x), os.path.join(d, 'spec', x))
        # confirm
        run = os.path.join(tmp, 'demo')
        shutil.copytree(d, run)
        e = dict(os.environ)
        e.pop('NAGINI_REPO', None)
        a = sh('sh', os.path.join(run, 'demo.sh'), cwd='/repo', env=e)
        b = sh('sh', os.path.join(run, 'demo.sh'), cwd=wt, env=e)
        e['PYTHONPATH'] = os.path.join(wt, 'src')
        t = sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests/servers', cwd=wt,
               env=dict(e, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                        JAVA_HOME='/usr/lib/jvm/java-17-openjdk-amd64'))
        tl = (t.stdout.strip().splitlines() or [''])[-1]
        good = a.returncode == 0 and b.returncode != 0 and '9 passed' in tl
        print('%-10s %s clean=%d patched=%d tests=%s' % (s['id'], 'KEPT' if good else 'DROPPED', a.returncode,
                                                        b.returncode, tl[:60]))
        if a.returncode or not good:
            print('   clean:', (a.stdout + a.stderr)[-900:], '\n   patched:', (b.stdout + b.stderr)[-900:])
        else:
            print('   ', (b.stdout + b.stderr).strip()[-300:].replace('\n', '\n    '))
        if not good:
            shutil.rmtree(d)
        if good and check:
            e.pop('PYTHONPATH')
            c = sh(os.path.join(VERIF, 'check.sh'), s['property'], env=dict(e, NAGINI_REPO=wt))
            print('    check: rc=%d %s' % (c.returncode, c.stdout.strip()[-500:]))
        sys.stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    check = '-c' in sys.argv
    args = [a for a in sys.argv[1:] if a != '-c']
    ns = {}
    exec(open(args[0]).read(), ns)
    for s in ns['SEEDS']:
        if len(args) == 1 or s['id'] in args[1:]:
            make(s, check)
