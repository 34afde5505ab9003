"""S05: Editor.tla schedules replayed into the language server over the Viper double; TLC judges what is shown."""
import asyncio
import contextlib
import io
import os
import random
import threading
import time
import types

import nag
import seqspec
import svc
import vlib

HEAD = 'from nagini_contracts.contracts import *\n'
BASE = {'a': 10, 'b': 40}
RUNS = 8


def source(u):
    """RUNS checks under a branch, the one of run r at line BASE + r."""
    pre = BASE[u] - 4
    return (HEAD + '\n' * (pre - 1) + 'def f_%s(x: int) -> None:\n    y = 0\n    if x > 5:\n        y = 1\n' % u
            + ''.join('        assert x != %d\n' % i for i in range(1, RUNS + 1)))


def rejected(u, r):
    return HEAD + '\n' * (BASE[u] + r - 3) + 'def g(x: int) -> None:\n    y = (\n'


def prepare(c):
    d = os.path.join(c.work, 'files')
    os.makedirs(d)
    nag.setup(os.path.join(d, 'cwd'))
    import nagini_translation.lsp_server      # noqa: imported once, before forking
    nag.memo_mypy()
    return d


def warm(d):
    """in a worker: its own copies of the documents, type checked once."""
    from nagini_translation.lib.typeinfo import TypeInfo
    w = os.path.join(d, 'w%d' % os.getpid())
    if not os.path.isdir(w):
        for u in BASE:
            os.makedirs(os.path.join(w, u))
            p = os.path.join(w, u, u + '.py')
            open(p, 'w').write(source(u))
            TypeInfo().check(p, None)
    for u in BASE:
        open(os.path.join(w, u, u + '.py'), 'w').write(source(u))
    return w


class Editor:
    def __init__(self, d, w, sc):
        from nagini_translation import lsp_server as L
        self.L, self.J = L, nag.setup(os.path.join(d, 'cwd'))
        self.dir = w
        self.ctl = svc.Ctl(self.J)
        self.J.S.NODE_HOOK = None
        self.J.GATE = self.gate
        self.J.AFTER_AWAIT = None
        self.ctl.reset([], {})
        self.lock = threading.Lock()
        self.waiting = {u: [] for u in BASE}        # runs requested whose verification has not begun
        self.pubs = {u: [] for u in BASE}
        self.exc, self.built, self.kind, self.doc = '', 0, {}, {}
        self.ls = ls = L.NaginiLanguageServer()
        ls.window_log_message = lambda p: None
        ls.text_document_publish_diagnostics = self.publish
        ws = types.SimpleNamespace(get_text_document=lambda uri: types.SimpleNamespace(source=''))
        type(ls).workspace = property(lambda s: ws)
        self.real = L.VerificationService
        L.VerificationService = self.build
        ls.service_kwargs = dict(viper_jar_path='double.jar', z3_path='/z', boogie_path='/b')
        if not sc['lazy']:
            ls.ensure_service()
        self.loop = asyncio.new_event_loop()
        threading.Thread(target=self.loop.run_forever, daemon=True).start()
        self.tasks = {}

    def gate(self, name, obj):
        if name == 'submit' and self.ctl.me() is not None:
            self.ctl.block('submit')

    def build(self, **kw):
        self.built += 1
        with contextlib.redirect_stdout(io.StringIO()):
            s = self.real(**kw)
        verify = s.verify

        def wrapped(path, *a, **k):
            u = os.path.basename(path)[0]
            with self.lock:
                r = self.waiting[u].pop(0)
            self.ctl.tl.r = r
            try:
                return verify(path, *a, **k)
            finally:
                self.ctl.block('end')
                self.ctl.tl.r = None
                with self.ctl.cv:
                    self.ctl.st[r] = 'done'
                    self.ctl.cv.notify_all()
        s.verify = wrapped
        return s

    def content(self, ds):
        if not ds:
            return dict(what='clean', run=0)
        if len(ds) == 1 and ds[0].code == 'verifier.error':
            return dict(what='crash', run=0)
        if len(ds) == 1:
            n = ds[0].range.start.line + 1
            for u, b in BASE.items():
                if b < n <= b + RUNS and (ds[0].code == 'type.error' or ds[0].code.startswith('assert.failed')):
                    r = n - b
                    if self.doc.get(r) == u and self.kind[r] == ('reject' if ds[0].code == 'type.error' else 'fail'):
                        return dict(what='run', run=r)
        return dict(what='unknown', run=0)

    def publish(self, p):
        u = os.path.basename(p.uri)[0]
        self.pubs[u].append(self.content(p.diagnostics))

    def answer(self, r, job):
        J = self.J
        if self.kind[r] == 'crash':
            return job.future.fail(J.S.JavaError('actor crashed'))
        if self.kind[r] == 'ok':
            return job.future.succeed(J.VSuccess())
        m = [m for m in job.prog._methods if m._name == 'f_' + self.doc[r]][0]
        n = [n for n in m.walk() if n.kind == 'Assert' and n._pos is not J.S.NoPosition
             and getattr(n._pos, 'line', lambda: 0)() == BASE[self.doc[r]] + r][0]
        br = [x._cond for x in m.walk() if x.kind == 'If' and hasattr(getattr(x._cond, '_pos', None), '_id')][:1]
        job.future.succeed(J.VFailure([J.VError('assert.failed', n, J.Reason('assertion.false', n._exp),
                                                contexts=[J.FailureContext(bcs=br)])]))

    def uri(self, u):
        return 'file://' + os.path.join(self.dir, u, u + '.py')

    def request(self, e):
        r, u, t = e['r'], e['u'], self.L.t
        self.kind[r], self.doc[r] = e['kind'], u
        with self.ctl.cv:
            self.ctl.st[r], self.ctl.go[r] = 'busy', set()
        with open(os.path.join(self.dir, u, u + '.py'), 'w') as f:
            f.write(rejected(u, r) if e['kind'] == 'reject' else source(u))
        with self.lock:
            self.waiting[u].append(r)
        if e['via'] == 'open':
            co = self.L.did_open(self.ls, t.DidOpenTextDocumentParams(t.TextDocumentItem(self.uri(u), 'python', 1, '')))
        elif e['via'] == 'save':
            co = self.L.did_save(self.ls, t.DidSaveTextDocumentParams(t.TextDocumentIdentifier(self.uri(u))))
        else:
            co = self.L.verify_method(self.ls, [self.uri(u), 'g' if e['kind'] == 'reject' else 'f_' + u])
        self.tasks[r] = asyncio.run_coroutine_threadsafe(co, self.loop)

    def wait(self, r, pcs, timeout=20):
        with self.ctl.cv:
            return self.ctl.cv.wait_for(lambda: self.ctl.st.get(r) in pcs, timeout)

    def finish(self, r):
        self.ctl.release(r, 'end')
        try:
            self.tasks[r].result(20)
        except BaseException as ex:       # noqa
            self.exc = self.exc or repr(ex)

    def hover(self, u):
        t = self.L.t
        got = set()
        for n in range(1, BASE[u] + RUNS + 4):
            h = self.L.hover(self.ls, t.HoverParams(t.TextDocumentIdentifier(self.uri(u)), t.Position(n - 1, 0)))
            if h is not None:
                got.add(n)
        if not got:
            return 0
        r = {n - BASE[u] for n in got}
        return r.pop() if len(r) == 1 and min(r) > 0 else -1

    def obs(self):
        f = asyncio.run_coroutine_threadsafe(self.idle(), self.loop)
        f.result(20)
        return dict(exc=self.exc[:500], services=self.built, pubs={u: list(p) for u, p in self.pubs.items()},
                    hover={u: self.hover(u) for u in BASE})

    async def idle(self):
        for _ in range(5):
            await asyncio.sleep(0)

    def step(self, e):
        a, r, c = e['a'], e['r'], self.ctl
        if a == 'Request':
            self.request(e)
            self.wait(r, ('submit', 'end', 'done'))
        elif a == 'Step':
            pc = c.st.get(r)
            if pc in ('submit', 'reg'):
                c.release(r, pc)
                self.wait(r, ('reg', 'end', 'done') if pc == 'submit' else ('run', 'end', 'done'))
        elif a == 'Deliver':
            job = c.rjob.get(r)
            if job is not None and c.st.get(r) == 'run':
                c.st[r] = 'busy'
                self.answer(r, job)
                self.wait(r, ('end', 'done'))
        elif a == 'Publish':
            if c.st.get(r) == 'end':
                self.finish(r)
        return self.obs()

    def drain(self, order):
        """let every run come to its end, in the given order."""
        end = time.time() + 60
        c = self.ctl
        while any(not t.done() for t in self.tasks.values()) and time.time() < end:
            moved = False
            for r in order:
                if r not in self.tasks or self.tasks[r].done():
                    continue
                pc = c.st.get(r)
                if pc in ('submit', 'reg'):
                    c.release(r, pc)
                    self.wait(r, ('reg', 'end', 'done') if pc == 'submit' else ('run', 'end', 'done'), 5)
                    moved = True
                elif pc == 'run' and c.rjob.get(r) is not None:
                    c.st[r] = 'busy'
                    self.answer(r, c.rjob[r])
                    self.wait(r, ('end', 'done'), 5)
                    moved = True
                elif pc == 'end':
                    self.finish(r)
                    moved = True
            if not moved:
                time.sleep(0.01)
        if any(not t.done() for t in self.tasks.values()):
            self.exc = self.exc or 'runs that do not end: %r' % {r: c.st.get(r) for r in self.tasks}
        return self.obs()


def replay(d, w, b, seed):
    ed = Editor(d, w, b['scenario'])
    out = []
    try:
        for e in b['steps']:
            out.append(dict(e=e, obs=ed.step(e)))
        rs = sorted(ed.tasks)
        random.Random(seed).shuffle(rs)
        out.append(dict(e=dict(a='Drain', r=0, u='-', kind='-', via='-'), obs=ed.drain(rs)))
    finally:
        ed.loop.call_soon_threadsafe(ed.loop.stop)
    return dict(scenario=b['scenario'], steps=out, detail=dict(order=rs))


def situations(b):
    """pairs of runs of one document with the orders in which they pass their points."""
    seq = [(e['a'], e['r']) for e in b['steps']]
    us = {e['r']: (e['u'], e['kind']) for e in b['steps'] if e['a'] == 'Request'}
    out = set()
    for x in us:
        for y in us:
            if x < y:
                p = tuple((a, 1 if r == x else 2) for a, r in seq if r in (x, y))
                out.add((us[x][0] == us[y][0], us[x][1], us[y][1], p))
                out.add((us[x][0] == us[y][0], p))
    for x in us:
        for y in us:
            for z in us:
                if x < y < z and us[x][0] == us[y][0] == us[z][0]:
                    out.add(tuple((a, [x, y, z].index(r)) for a, r in seq if r in (x, y, z)))
    return out


def run(c):
    consts = dict(MaxRuns=3, Docs='{"a", "b"}')
    seqspec.modelcheck(c, 'Editor', consts, depth=9 if vlib.THOROUGH else 7, timeout=800)
    n = 20000 if vlib.THOROUGH else 2500
    behs = []
    for k, (runs, docs, depth) in enumerate([(2, '{"a", "b"}', 8), (3, '{"a", "b"}', 11), (4, '{"a", "b"}', 13), (3, '{"a", "b"}', 7)]):
        behs += seqspec.generate(c, 'Editor', dict(MaxRuns=runs, Docs=docs), depth=depth, n=n, seed=vlib.SEED + k, timeout=300)
    sits = [situations(b) for b in behs]
    left, pick = set().union(*sits), []
    total, todo = len(left), list(range(len(behs)))
    limit = 3000 if vlib.THOROUGH else 200
    while todo and left and len(pick) < limit:
        i = max(todo[:600], key=lambda j: len(sits[j] & left) / (len(behs[j]['steps']) + 2))
        todo.remove(i)
        random.Random(i).shuffle(todo) if len(pick) % 40 == 0 else None
        if sits[i] & left:
            left -= sits[i]
            pick.append(i)
    d = prepare(c)

    def one(i):
        w = warm(d)
        return nag.fresh(lambda: replay(d, w, behs[i], i), timeout=200)
    recs = nag.pmap(one, pick, timeout=800)
    runs = []
    for i, r in zip(pick, recs):
        if nag.is_exc(r):
            c.violation('ServerFails', dict(behaviour=behs[i], error=r[1][-1500:]))
        else:
            runs.append(r)
    seqspec.validate(c, 'Editor', runs, dict(consts, MaxRuns=8))
    c.add(schedules=len(runs), situations=total, situations_exercised=total - len(left),
          published=sum(len(p) for r in runs for p in r['steps'][-1]['obs']['pubs'].values()))
