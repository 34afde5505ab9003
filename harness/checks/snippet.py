"""S07: Snippet.tla behaviours replayed into the tool server over the Viper double; TLC judges answers and leftovers."""
import asyncio
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import tempfile
import threading
import time

import nag
import seqspec
import svc
import vlib

HEAD = 'from nagini_contracts.contracts import *\n\n\n'
FILES = {
 'ok': HEAD + 'def oa(x: int) -> int:\n    Ensures(Result() == x)\n    return x\n',
 'fail': HEAD + 'def fa(x: int) -> int:\n    Requires(x > 2)\n    if x > 5:\n        assert x > 7\n    # \u00e9t\u00e9 \u2265\n    return x\n',
 'classes': HEAD + '''class C:
    def m(self, y: int) -> int:
        if y > 3:
            assert y == 5
        return y

    def k(self) -> None:
        assert self.m(1) == 2


def other(z: int) -> None:
    assert z != 0
''',
 'globals': HEAD + 'v = 3\nassert v != 5\n\n\ndef fg() -> int:\n    assert v == 3\n    return v\n',
 'reject': HEAD + 'def ra(x: int) -> int:\n    y = 0\n    Requires(x > 0)\n    return x + y\n',
 'typeerr': HEAD + 'def rt(x: int) -> int:\n    return "a"\n',
 'syntax': HEAD + 'def rt(x: int) -> int:\n    return (\n',
 # a member of a package, needs the package root
 'sub': 'from nagini_contracts.contracts import *\nfrom pkg.lib import L\n\n\ndef use(l: L) -> int:\n    assert l is not None\n    return 1\n',
}


def where(u, prog):
    """the user's copy of a program."""
    return os.path.join(u, 'pkg', 'sub.py') if prog == 'sub' else os.path.join(u, prog, 'snippet.py')


def write_user(u):
    for f, t in FILES.items():
        p = where(u, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w', encoding='utf-8').write(t)
    open(os.path.join(u, 'pkg', '__init__.py'), 'w').write('')
    open(os.path.join(u, 'pkg', 'lib.py'), 'w').write(HEAD + 'class L:\n    pass\n')


def listing(u):
    out = {}
    for b, ds, fs in os.walk(u):
        ds[:] = [x for x in ds if x not in ('.mypy_cache', '__pycache__')]
        for f in fs:
            out[os.path.relpath(os.path.join(b, f), u)] = open(os.path.join(b, f), 'rb').read()
    return out


def sha(x):
    return hashlib.sha1(x.encode()).hexdigest()[:16]


def job_of(job, norm):
    return dict(args=norm(json.dumps([job.cfg.backend, list(job.cfg.args), str(job.program_id)])), prog=sha(norm(str(job.prog))))


def answer_with(J, job, end):
    if end == 'crash':
        job.future.fail(J.S.JavaError('actor crashed'))
    else:
        job.future.succeed(nag.fail_asserts(job.prog))


def reply_text(norm, d):
    d = dict(d)
    d.pop('duration', None)
    return norm(json.dumps(d, sort_keys=True))


def reference(d, q, end):
    """the service alone, on a file with that content."""
    J = nag.setup(os.path.join(d, 'cwd'))
    u = os.path.join(d, 'user')
    s = svc.make_service()
    got = dict(args='', prog='')
    p = where(u, q['prog'])
    base = os.path.join(u) if q['dir'] else (os.path.dirname(p) if q['k'] == 'file' and q['prog'] != 'sub' else None)
    norm = normer([os.path.dirname(p)])

    def on_submit(job):
        got.update(job_of(job, norm))
        answer_with(J, job, end)
    J.SERVER.on_submit_hook = on_submit
    par = q['par']
    with contextlib.redirect_stdout(io.StringIO()):
        r = s.verify(p, selected={q['meth']} if q['meth'] else None, counterexample=par['ce'], base_dir=base,
                     ignore_global=par['ig'], viper_args=[par['va']] if par['va'] else None, include_viper=par['iv'])
    return dict(got, reply=reply_text(norm, r.to_dict()))


def normer(dirs):
    import re

    def norm(s):
        for x in sorted(dirs, key=len, reverse=True):
            s = s.replace(x, '<D>')
        return re.sub(r'<D>/[A-Za-z_0-9]+\.py', '<D>/F', s)
    return norm


class Driver:
    def __init__(self, d):
        from nagini_translation import mcp_server as m
        self.m, self.J, self.u = m, nag.setup(os.path.join(d, 'cwd')), os.path.join(d, 'user')
        self.tmp = os.path.join(d, 'tmp%d' % os.getpid())
        os.makedirs(self.tmp)
        tempfile.tempdir = self.tmp
        self.ctl = svc.Ctl(self.J)
        self.J.S.NODE_HOOK = self.J.GATE = self.J.AFTER_AWAIT = None
        self.J.SERVER.on_submit_hook = self.on_submit
        self.ctl.reset([], {})
        self.before = listing(self.u)
        self.q, self.end, self.tasks, self.seen, self.dirs = {}, {}, {}, {}, [os.path.dirname(where(self.u, f)) for f in FILES]
        m._service = self.svc = svc.make_service()
        verify = self.svc.verify

        def wrapped(path, *a, **k):
            r = self.ctl.tl.r = self.current
            self.dirs.append(os.path.dirname(path))
            self.ctl.block('begin')
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    return verify(path, *a, **k)
            finally:
                self.ctl.tl.r = None
                with self.ctl.cv:
                    self.ctl.st[r] = 'done'
                    self.ctl.cv.notify_all()
        self.svc.verify = wrapped
        self.loop = asyncio.new_event_loop()
        threading.Thread(target=self.loop.run_forever, daemon=True).start()

    def on_submit(self, job):
        r = self.ctl.me()
        self.ctl.rjob[r] = job
        self.seen[r] = job_of(job, normer(self.dirs))

    def request(self, e):
        r, q, m = e['r'], e['q'], self.m
        self.current = r
        self.q[r], self.end[r] = q, e['end']
        with self.ctl.cv:
            self.ctl.st[r], self.ctl.go[r] = 'busy', set()
        kw = dict(counterexample=q['par']['ce'], viper_args=[q['par']['va']] if q['par']['va'] else None, include_viper=q['par']['iv'],
                  job_token='t%d' % r if e['tok'] else None)
        p = where(self.u, q['prog'])
        m.__dict__.pop('open', None)
        if q['k'] == 'snippet':
            if e['end'] == 'writefails':
                m.open = self.fails
            co = m.verify_snippet(FILES[q['prog']], ignore_global=q['par']['ig'], **kw)
        elif q['k'] == 'method':
            co = m.verify_method(p, q['meth'], **kw)
        else:
            base = self.u if q['dir'] else (os.path.dirname(p) if q['prog'] != 'sub' else None)
            co = m.verify_file(p, method=q['meth'] or None, ignore_global=q['par']['ig'], base_dir=base, **kw)
        self.tasks[r] = asyncio.run_coroutine_threadsafe(co, self.loop)
        end = time.time() + 20
        while time.time() < end and self.ctl.st.get(r) not in ('begin', 'done') and not self.tasks[r].done():
            time.sleep(0.002)
        m.__dict__.pop('open', None)

    @staticmethod
    def fails(p, *a, **k):
        """a file that can be created but not written."""
        f = open(p, *a, **k)

        class Full:
            def __enter__(self):
                return self

            def __exit__(self, *x):
                f.close()

            def write(self, s):
                raise OSError(28, 'No space left on device')

            def close(self):
                f.close()
        return Full()

    def wait(self, r, pcs):
        with self.ctl.cv:
            ok = self.ctl.cv.wait_for(lambda: self.ctl.st.get(r) in pcs, 20)
        if self.ctl.st.get(r) == 'done':
            self.settled(r)
        return ok

    def settled(self, r):
        try:
            self.tasks[r].result(10)
        except BaseException:      # noqa
            pass

    def step(self, e):
        a, r, c = e['a'], e['r'], self.ctl
        if a == 'Request':
            self.request(e)
        elif a == 'Begin':
            c.release(r, 'begin')
            self.wait(r, ('run', 'done'))
        elif a == 'Deliver':
            self.deliver(r)
        elif a == 'Cancel':
            self.m.cancel('t%d' % r)
            if c.st.get(r) == 'run':
                with c.cv:
                    c.cv.wait_for(lambda: c.st.get(r) == 'done', 3)
                if c.st.get(r) == 'done':
                    self.settled(r)
        elif a == 'Abandon':
            self.tasks[r].cancel()
            time.sleep(0.02)
        elif a == 'Drain':
            end = time.time() + 40
            while time.time() < end and any(v != 'done' for k, v in c.st.items() if not self.over(k)):
                for k in sorted(self.tasks):
                    if c.st.get(k) == 'begin':
                        c.release(k, 'begin')
                        self.wait(k, ('run', 'done'))
                    self.deliver(k)
                time.sleep(0.002)
        asyncio.run_coroutine_threadsafe(self.idle(), self.loop).result(20)
        return self.obs()

    def over(self, r):
        """requests that never reached the service (the file could not be written)."""
        return self.tasks[r].done() and self.ctl.st.get(r) == 'busy'

    def deliver(self, r):
        c = self.ctl
        job = c.rjob.get(r)
        if job is not None and c.st.get(r) == 'run':
            c.st[r] = 'busy'
            answer_with(self.J, job, self.end[r])
            self.wait(r, ('done',))

    async def idle(self):
        for _ in range(5):
            await asyncio.sleep(0)

    def obs(self):
        now = listing(self.u)
        ch = sorted(set(now) ^ set(self.before)) + [k for k in now if k in self.before and now[k] != self.before[k]]
        return dict(ans=[self.ans(r) for r in sorted(self.tasks)], changed=','.join(ch)[:200], left=len(os.listdir(self.tmp)),
                    names=os.listdir(self.tmp)[:5])

    def ans(self, r):
        t, norm = self.tasks[r], normer(self.dirs)
        a = dict(answered=False, cancelled=False, args='', prog='', reply='')
        if not t.done() or t.cancelled():
            return a
        a.update(self.seen.get(r, {}), answered=True)
        try:
            d = t.result(0)
            a['reply'], a['cancelled'] = reply_text(norm, d), d['cancelled'] is True and not d['success']
        except BaseException as ex:         # noqa
            a['reply'] = 'exception ' + repr(ex)[:300]
        return a


def prepare(c):
    d = os.path.join(c.work, 'files')
    os.makedirs(d)
    write_user(os.path.join(d, 'user'))
    nag.setup(os.path.join(d, 'cwd'))
    import nagini_translation.mcp_server      # noqa: imported once, before forking
    nag.memo_mypy()
    from nagini_translation.lib.typeinfo import TypeInfo
    for f in FILES:
        if f not in ('syntax', 'sub', 'typeerr'):
            p = where(os.path.join(d, 'user'), f)
            TypeInfo().check(p, os.path.dirname(p))
            TypeInfo().check(p, None)
    return d


def replay(d, b):
    dr = Driver(d)
    out = [dict(e=e, obs=dr.step(e)) for e in b['steps']]
    e = dict(b['steps'][0], a='Drain', r=0)
    out.append(dict(e=e, obs=dr.step(e)))
    shutil.rmtree(dr.tmp, ignore_errors=True)
    return dict(scenario=b['scenario'], steps=out)


def features(b):
    f, live, gone = set(), [], 0
    for e in b['steps']:
        if e['a'] == 'Request':
            q = e['q']
            f.add((q['k'], q['prog'], q['meth'], e['end']))
            f.add((q['k'], json.dumps(q['par'], sort_keys=True)))
            f.add((q['k'], q['dir'], e['tok']))
            for x in live:
                f.add(('overlap', x, q['k'], q['prog']))
            live.append(q['k'] + q['prog'])
        else:
            r = [x for x in b['steps'] if x['a'] == 'Request' and x['r'] == e['r']][0]
            f.add((e['a'], r['q']['k'], r['end'], r['tok'], len(live)))
            f.add((e['a'], r['q']['k'], r['q']['prog']))
    return f


def run(c):
    import sys
    T = time.time()
    say = lambda m: print('%.1f %s' % (time.time() - T, m), file=sys.stderr)
    seqspec_env = os.path.join(c.work, 'refs.json')
    os.environ['REFS'] = seqspec_env
    json.dump([], open(seqspec_env, 'w'))
    consts = dict(MaxRuns=2, Sample='FALSE')
    seqspec.modelcheck(c, 'Snippet', consts, depth=4 if vlib.THOROUGH else 2, timeout=800)
    say('mc')
    behs = []
    for k, (runs, depth, n) in enumerate([(1, 3, 2000), (2, 6, 1500), (3, 9, 1500)]):
        behs += seqspec.generate(c, 'Snippet', dict(MaxRuns=runs, Sample='TRUE'), depth=depth, n=n * (5 if vlib.THOROUGH else 1), seed=vlib.SEED + k)
    say('gen')
    fs = [features(b) for b in behs]
    left, pick = set().union(*fs), []
    total, todo = len(left), list(range(len(behs)))
    random.Random(vlib.SEED).shuffle(todo)
    limit = 2500 if vlib.THOROUGH else 170
    while todo and left and len(pick) < limit:
        i = max(todo[:800], key=lambda j: len(fs[j] & left) / (len(behs[j]['steps']) + 2))
        todo.remove(i)
        if not fs[i] & left:
            todo = todo[800:]
            continue
        left -= fs[i]
        pick.append(i)
    say('chosen %d' % len(pick))
    d = prepare(c)
    say('prepared')
    need = {}
    for i in pick:
        for e in behs[i]['steps']:
            if e['a'] == 'Request' and e['end'] != 'writefails':
                q = dict(e['q'], k='file')
                need[json.dumps([q, e['end']], sort_keys=True)] = (q, e['end'])
    need = list(need.values())
    refs = nag.pmap(lambda x: nag.fresh(lambda: reference(d, *x), timeout=100), need, timeout=400)
    out = []
    for (q, end), r in zip(need, refs):
        if nag.is_exc(r):
            raise RuntimeError('reference %s: %s' % (q, r[1][-800:]))
        out.append(dict(q=q, end=end, obs=r))
    json.dump(out, open(seqspec_env, 'w'))
    say('refs %d' % len(out))
    recs = nag.pmap(lambda i: nag.fresh(lambda: replay(d, behs[i]), timeout=200), pick, timeout=700)
    runs = []
    for i, r in zip(pick, recs):
        if nag.is_exc(r):
            c.violation('ServerFails', dict(behaviour=behs[i], error=r[1][-1500:]))
        else:
            runs.append(r)
    say('replayed')
    seqspec.validate(c, 'Snippet', runs, dict(MaxRuns=4, Sample='FALSE'))
    c.add(behaviours=len(runs), references=len(out), features=total, features_exercised=total - len(left))
