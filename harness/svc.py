"""Deterministic driver for VerificationService: replays Service.tla schedules."""
import os
import threading
import time

import nag

FILES = {
    'fail_a': 'from nagini_contracts.contracts import *\n\n\ndef fa(x: int) -> int:\n    Requires(x > 2)\n    assert x > 7\n    return x\n',
    'fail_b': 'from nagini_contracts.contracts import *\n\n\nclass C:\n    def m(self, y: int) -> int:\n'
              '        if y > 3:\n            assert y == 5\n        return y\n\n\ndef other(z: int) -> None:\n    assert z != 0\n',
    'fail_c': 'from nagini_contracts.contracts import *\nfrom nagini_contracts.obligations import *\n\n\n'
              'def fc(n: int) -> int:\n    Requires(MustTerminate(2))\n\n    assert n * 2 == n + n + 1\n    return n\n',
    'ok_a': 'from nagini_contracts.contracts import *\n\n\ndef oa(x: int) -> int:\n    Ensures(Result() == x)\n    return x\n',
    'ok_b': 'from nagini_contracts.contracts import *\n\n\ndef ob(x: bool) -> bool:\n    if x:\n        return False\n    return True\n',
    'reject_a': 'from nagini_contracts.contracts import *\n\n\ndef ra(x: int) -> int:\n    y = 0\n    Requires(x > 0)\n    return x + y\n',
    'reject_b': 'from nagini_contracts.contracts import *\n\n\n@Pure\ndef rb(x: int) -> int:\n    while x > 0:\n        x = x - 1\n    return x\n',
    'reject_t': 'from nagini_contracts.contracts import *\n\n\ndef rt(x: int) -> int:\n    return "a"\n',
}
KIND = {'ok': ['ok_a', 'ok_b'], 'fail': ['fail_a', 'fail_b', 'fail_c'], 'reject': ['reject_a', 'reject_b']}


def write_files(d):
    os.makedirs(d, exist_ok=True)
    for n, t in FILES.items():
        with open(os.path.join(d, n + '.py'), 'w') as f:
            f.write(t)


def fpath(d, n):
    return os.path.join(d, n + '.py')


def make_service(**kw):
    import contextlib
    import io
    from nagini_translation.service import VerificationService
    with contextlib.redirect_stdout(io.StringIO()):
        return VerificationService(viper_jar_path='double.jar', z3_path='/usr/bin/z3', boogie_path='/usr/bin/boogie', **kw)


def solo(args):
    """Result of a request served alone by a fresh process."""
    scratch, d, n, kw = args

    def go():
        J = nag.setup(os.path.join(scratch, 'solo_%s_%d' % (n, os.getpid())))
        J.BackendHooks.verify = staticmethod(nag.fail_asserts)
        svc = make_service()
        return nag.res_dict(svc.verify(fpath(d, n), **kw))
    return nag.fresh(go)


class Ctl:
    """Controls the request threads at their external interaction points."""

    def __init__(self, J):
        import sys
        self.J = J
        self.cv = threading.Condition()
        self.st = {}            # r -> pc
        self.go = {}            # r -> set of gates released
        self.tl = threading.local()
        self.jobs = {}          # job number -> r
        S = J.S
        J.GATE = self.gate
        J.AWAIT_HOOK = self.on_await
        J.AFTER_AWAIT = self.after_await
        S.NODE_HOOK = self.on_node
        J.SERVER.on_submit_hook = self.on_submit

    def me(self):
        return getattr(self.tl, 'r', None)

    def block(self, pc):
        r = self.me()
        with self.cv:
            self.st[r] = pc
            self.cv.notify_all()
            self.cv.wait_for(lambda: pc in self.go[r], timeout=120)

    def on_node(self, n):
        r = self.me()
        if r is None:
            return
        if 'trans' in self.go[r] or self.st.get(r) == 'trans':
            return
        if self.late[r]:
            if n.kind == 'Program':
                self.block('trans')
        else:
            self.block('trans')

    def gate(self, name, obj):
        r = self.me()
        if r is None:
            return
        if name == 'submit':
            self.block('submit')
        elif name == 'errors' and 'conv' not in self.go[r]:
            self.block('conv')

    def on_submit(self, job):
        r = self.me()
        self.jobs[job.id.i] = r
        self.rjob[r] = job
        if r is not None:
            self.block('reg')

    def after_await(self, fut):
        r = self.me()
        if r is not None and self.rjob.get(r) is not None and self.rjob[r].future is fut:
            self.block('back')

    def on_await(self, fut):
        r = self.me()
        if r is None or self.rjob.get(r) is None or self.rjob[r].future is not fut:
            return
        with self.cv:
            self.st[r] = 'run'
            self.cv.notify_all()

    def reset(self, reqs, late):
        self.st = {r: 'idle' for r in reqs}
        self.go = {r: set() for r in reqs}
        self.rjob = {}
        self.late = late
        self.res = {}
        self.exc = {}
        self.J.SERVER.log = []

    def spawn(self, r, fn):
        def body():
            self.tl.r = r
            try:
                v = fn()
                self.res[r] = v
            except BaseException:     # noqa
                import traceback
                self.exc[r] = traceback.format_exc()
            with self.cv:
                self.st[r] = 'done'
                self.cv.notify_all()
        with self.cv:
            self.st[r] = 'busy'
        threading.Thread(target=body, daemon=True).start()

    def release(self, r, pc):
        with self.cv:
            self.go[r].add(pc)
            if self.st[r] == pc:
                self.st[r] = 'busy'
            self.cv.notify_all()

    def settle(self, want, timeout):
        """Wait until every thread is where `want` says (blocked = still busy)."""
        vis = {r: ('busy' if p in ('wait', 'got') else p) for r, p in want.items()}
        with self.cv:
            ok = self.cv.wait_for(lambda: all(self.st[r] == p for r, p in vis.items()), timeout)
            blocked = [r for r, p in vis.items() if p == 'busy']
            if ok and blocked:
                self.cv.wait_for(lambda: any(self.st[r] != 'busy' for r in blocked), 0.15)
            return {r: ('blocked' if self.st[r] == 'busy' else self.st[r]) for r in vis}


def classify(c, r):
    if r in c.exc:
        return 'exception'
    if r not in c.res:
        return 'none'
    v = c.res[r]
    if v.cancelled:
        return 'cancelled'
    if v.success:
        return 'success'
    if v.translation_failed:
        return 'rejected'
    return 'errors'


def replay(c, svc, d, sched, solos, pick, kwargs_of=None, settle=40.0):
    """Execute one schedule on the real service; returns the recorded run."""
    J = c.J
    reqs = list(range(1, len(sched['kind']) + 1))
    names = {}
    for r in reqs:
        ns = KIND[sched['kind'][r - 1]]
        names[r] = ns[(pick + r) % len(ns)]
    c.reset(reqs, {r: sched['kind'][r - 1] != 'reject' for r in reqs})
    rec = dict(kind=sched['kind'], tok=sched['tok'], files=[names[r] for r in reqs], steps=[])
    bad = False
    for st in sched['steps']:
        a, r = st['a'], st['r']
        if a == 'Start':
            tok = sched['tok'][r - 1]
            c.spawn(r, lambda n=names[r], t=tok: svc.verify(fpath(d, n), job_token=('tok%d' % t) if t else None))
        elif a == 'EndTrans':
            c.release(r, 'trans')
        elif a == 'Submit':
            c.release(r, 'submit')
        elif a == 'Deliver':
            job = c.rjob.get(r)
            if job is not None:
                with c.cv:
                    if c.st[r] == 'run':
                        c.st[r] = 'busy'
                job.future.succeed(nag.fail_asserts(job.prog))
        elif a == 'Register':
            c.release(r, 'reg')
        elif a == 'Resume':
            c.release(r, 'back')
        elif a == 'EndConv':
            c.release(r, 'conv')
        elif a == 'Cancel':
            svc.cancel(job_token='tok%d' % r)
        elif a == 'CancelAll':
            svc.cancel()
        want = dict(zip(reqs, st['pc']))
        seen = c.settle(want, settle if not bad else 1.0)
        out = {k: classify(c, k) if seen[k] == 'done' else 'none' for k in reqs}
        obs = dict(pc=[seen[k] for k in reqs], out=[out[k] for k in reqs],
                   same=[bool(out[k] not in ('none', 'exception') and nag.res_dict(c.res[k]) == solos[names[k]])
                         if out[k] != 'cancelled' else False for k in reqs],
                   nd=[len(c.res[k].diagnostics) if k in c.res else 0 for k in reqs],
                   stops=sorted({c.jobs.get(e[1], 0) for e in J.SERVER.log if e[0] == 'stop'}))
        rec['steps'].append(dict(a=a, r=r, obs=obs))
        if seen != {k: ('blocked' if v in ('wait', 'got') else v) for k, v in want.items()}:
            bad = True
            break
    if bad:
        for r in reqs:
            for g in ('trans', 'submit', 'reg', 'back', 'conv'):
                c.release(r, g)
            if c.rjob.get(r) is not None:
                c.rjob[r].future.succeed(J.VSuccess())
        with c.cv:
            c.cv.wait_for(lambda: all(c.st[r] in ('done', 'idle') for r in reqs), 20)
        rec['details'] = {str(r): (c.exc.get(r) or (nag.res_dict(c.res[r]) if r in c.res else None)) for r in reqs}
    elif any(not x for o in [rec['steps'][-1]['obs']] for x in o['same']):
        rec['details'] = {str(r): (c.exc.get(r) or (nag.res_dict(c.res[r]) if r in c.res else None)) for r in reqs}
    return rec
