"""Shared machinery of all checks: TLC runs, verdict collection, evidence."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('NAGINI_REPO', '/repo')
JAVA = '/usr/lib/jvm/java-17-openjdk-amd64/bin/java'
if not os.path.exists(JAVA):
    JAVA = 'java'
TLA = '/opt/veriftools/tla'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'


def classpath():
    out = []
    for d, _, fs in os.walk(TLA):
        for f in fs:
            if f.endswith('.jar') and 'apalache' not in f.lower():
                out.append(os.path.join(d, f))
    out.sort(key=lambda p: (0 if p.endswith('tla2tools.jar') else 1, p))
    return ':'.join(out)


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m.group(1).replace(',', '')) if m else 0
        self.distinct = int(m.group(2).replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found' in out
        m = re.search(r'Error: Invariant (\w+) is violated', out)
        self.violated = m.group(1) if m else None
        if not m:
            m = re.search(r'(?:Action property|Temporal properties|property) ?(\w*) (?:is|were) violated', out)
            self.violated = (m.group(1) or 'temporal') if m else None

    def prints(self, tag):
        """JSON payloads printed by PrintT(<<tag, ToJson(..)>>)."""
        res = []
        pat = '<<"%s", ' % tag
        for line in self.out.splitlines():
            if line.startswith(pat) and line.endswith('>>'):
                body = line[len(pat):-2]
                try:
                    s = json.loads(body)          # a TLA+ string literal
                except ValueError:
                    s = body
                if isinstance(s, str):
                    try:
                        s = json.loads(s)
                    except ValueError:
                        pass
                res.append(s)
        return res


def tlc(module, cfg, workdir, *, workers=1, timeout=600, heap='2g', simulate=None, depth=None,
        seed=None, extra=(), jvm=(), env=None, stack='64m', partial=False):
    """Run TLC on workdir/module.tla (spec files are copied there)."""
    meta = tempfile.mkdtemp(prefix='tlcmeta', dir=workdir)
    cmd = [JAVA, '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + stack,
           '-Dtlc2.tool.impl.Tool.cdot=true'] + list(jvm)
    cmd += ['-cp', classpath(), 'tlc2.TLC', '-metadir', meta, '-config', cfg, '-workers', str(workers),
            '-noGenerateSpecTE', '-deadlock']
    if simulate:
        cmd += ['-simulate', 'num=%d' % simulate]
        if depth:
            cmd += ['-depth', str(depth)]
    if seed is not None:
        cmd += ['-seed', str(seed)]
    cmd += list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    p = subprocess.Popen(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         env=e, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        if not simulate and not partial:
            raise TLCError('TLC timed out on %s\n%s' % (module, out[-2000:]))
    shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(out, p.returncode, time.time() - t)


def copy_specs(workdir, *names):
    for n in names:
        shutil.copy(os.path.join(SPEC, n), workdir)


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.violations = []          # list of dicts
        self.coverage = {}
        self.samples = []
        self.known = self._known()
        self.known_hit = []

    def _known(self):
        res = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            for e in json.load(open(p)):
                if e.get('property') == self.prop and e.get('status') == 'known':
                    res.append(e)
        return res

    def violation(self, clause, detail, key=None):
        """key identifies the failing input/history; listed findings are not alarms."""
        for e in self.known:
            if key is not None and e.get('key') == key and e.get('clause', clause) == clause:
                if e not in self.known_hit:
                    self.known_hit.append(e)
                return
        self.violations.append(dict(clause=clause, key=key, detail=detail))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def tlc_stats(self, r):
        self.add(states=r.distinct, transitions=r.generated)

    def finish(self):
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level, coverage=dict(self.coverage),
                  wall_s=round(time.time() - self.t0, 2), violations=self.violations[:50])
        ev['coverage'].setdefault('samples', self.samples[:20])
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for e in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, e.get('what')))
        if self.violations:
            rp = os.path.join(d, 'replay-%s.json' % self.prop)
            with open(rp, 'w') as f:
                json.dump(self.violations, f, indent=1, default=str)
            for v in self.violations[:10]:
                print('  %s: %s' % (v['clause'], str(v['detail'])[:600]))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.stdout.flush()
            return 1
        print('OK property=%s tier=%s wall=%.1fs coverage=%s' % (
            self.prop, TIER, time.time() - self.t0,
            json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, (int, float))})))
        sys.stdout.flush()
        return 0


def run_check(prop, level, fn):
    """fn(check) does the work; a crash of the code under test is a violation."""
    c = Check(prop, level)
    try:
        fn(c)
    except BaseException as e:      # noqa
        traceback.print_exc()
        c.violation('Crash', traceback.format_exc()[-3000:])
    return c.finish()
