"""S03: Endings.tla behaviours replayed into every front end over the Viper double; TLC judges the answers."""
import asyncio
import contextlib
import io
import json
import os
import random
import re
import sys
import types

import nag
import seqspec
import vlib

HEAD = 'from nagini_contracts.contracts import *\n\n\n'
FILES = {
 'ok': HEAD + '''class B:
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 0)  # type: ignore
        self.n = 0

    def m(self) -> 'B':
        Requires(Acc(self.n) and self.n >= 0)
        Ensures(Acc(self.n) and Result() is self)
        Ensures(self.n == Old(self.n) + 1)
        self.n = self.n + 1
        return self


def climb(b: B, x: int) -> int:
    Requires(Acc(b.n) and b.n == 0)
    Ensures(Acc(b.n))
    Ensures(Result() > x)
    b.m().m()
    assert b.n == 2 and x != 77
    while x < 10:
        Invariant(Acc(b.n) and b.n >= 2)
        x += 1
    assert x >= 10
    return x + 1
''',
 'typeerr': HEAD + 'def f(x: int) -> int:\n    return "a"\n',
 'syntax': HEAD + 'def f(x: int) -> int:\n    return (\n',
 'invalid': HEAD + 'def f(x: int) -> int:\n    y = x\n    Requires(y > 0)\n    return x\n',
 'unsupported': HEAD + 'def f(x: int) -> int:\n    y = [z for z in [1, 2] if z > 1 for w in [1]]\n    return x\n',
}


class Exit(BaseException):
    pass


class Stop(BaseException):
    pass


def pool(prog):
    """errors the backend may report: [(error id, node, reason id, reason node)] by place number."""
    from fakejvm import silver as S
    g = [m for m in prog._methods if m._name == 'climb'][0]
    m = [m for m in prog._methods if m._name == 'B_m'][0]

    def has(n):
        return isinstance(getattr(n, '_pos', None), S.AbstractSourcePosition) and hasattr(n._pos, '_id')
    asserts = [n for n in g.walk() if n.kind == 'Assert' and has(n) and not isinstance(n._exp, S.TrueLit)]
    calls = [n for n in g.walk() if n.kind == 'MethodCall' and has(n) and n._methodName == 'B_m']
    conj = [asserts[0]._exp.left(), asserts[0]._exp.right()]
    loop = [n for n in g.walk() if n.kind == 'While'][0]
    inv = [x for x in loop._invs.items if has(x)]
    posts = [p for p in m._posts.items if has(p)]
    res = [('assert.failed', asserts[0], 'assertion.false', asserts[0]._exp),
           ('assert.failed', asserts[0], 'assertion.false', conj[-1]),
           ('assert.failed', asserts[0], 'insufficient.permission', conj[0]),
           ('assert.failed', asserts[-1], 'assertion.false', asserts[-1]._exp),
           ('call.precondition', calls[0], 'assertion.false', m._pres.items[-1]),
           ('call.precondition', calls[1], 'assertion.false', m._pres.items[-1]),
           ('postcondition.violated', posts[-1], 'assertion.false', posts[-1]),
           ('invariant.not.preserved', inv[-1], 'assertion.false', inv[-1])]
    return res


class Plain:
    """an error that is no verification error: it has a message and no place."""

    def __init__(self, J, cls, msg):
        self.cls, self.msg, self.J = cls, msg, J

    def getClass(self):
        return types.SimpleNamespace(getSimpleName=lambda: self.cls, getName=lambda: 'viper.silver.verifier.' + self.cls)

    def pos(self):
        return self.J.S.NoPosition

    def fullId(self):
        return self.cls.lower()

    def readableMessage(self):
        return self.msg


class Driver:
    def __init__(self, d, scenario):
        self.d, self.sc, self.front, self.env = d, scenario, scenario['front'], scenario['env']
        self.J = J = nag.setup(os.path.join(d, 'cwd'))
        J.BackendHooks.verify = staticmethod(self.backend)
        J.AWAIT_HOOK = self.on_await
        J.SERVER.start_fails = self.env != 'full'
        if self.env == 'nobackend':
            for k in ('viper.silicon.Silicon', 'viper.carbon.CarbonVerifier'):
                J.REG.pop(k, None)
        self.e, self.given, self.log, self.pub, self.n = None, [], [], [], 0
        self.patch_translator()

    # ---- what the request meets
    def patch_translator(self):
        from nagini_translation import translator, main as M
        from nagini_translation.lib.util import ConsistencyException
        me = self
        orig = translator.Translator.translate_program

        def translate_program(t, *a, **k):
            if me.e['tr'] == 'crash':
                raise RuntimeError('translator crashed')
            p = orig(t, *a, **k)
            if me.e['tr'] == 'javacrash':
                raise me.J.S.JavaError('java crashed')
            if me.e['tr'] == 'inconsistent':
                raise ConsistencyException('consistency.error')
            return p
        translator.Translator.translate_program = translate_program

    def on_await(self, fut):
        pass

    def backend(self, prog, backend, args, program_id):
        J, e, be = self.J, self.e, self.e['be']
        ps = pool(prog)
        if be in ('fail', 'timeout2'):
            ids = e['errs'] if be == 'fail' else [1, 4]
            errs = []
            for i in sorted(ids):
                eid, n, rid, rn = ps[i - 1]
                errs.append(J.VError(eid, n, J.Reason(rid, rn)))
                self.given.append(self.place(n, rn))
            if be == 'timeout2':
                errs.insert(1, Plain(J, 'TimeoutOccurred', 'Timeout occurred after 10 second(s).'))
            return J.VFailure(errs)
        if be == 'timeout':
            return J.VFailure([Plain(J, 'TimeoutOccurred', 'Timeout occurred after 10 second(s).')])
        if be == 'abort':
            return J.VFailure([Plain(J, 'AbortedExceptionally', 'Verification aborted exceptionally (why not)')])
        if be == 'empty':
            return J.VFailure([])
        if be == 'null':
            return None
        if be == 'jexc':
            raise J.S.JavaError('backend crashed')
        if be == 'pyexc':
            raise RuntimeError('backend crashed')
        return J.VSuccess()

    def place(self, n, rn):
        p, q = n._pos, rn._pos
        z = lambda p, i: (p.line(), p.column())[i]       # noqa
        return dict(file=os.path.basename(str(p.file())), l1=p.line(), c1=p.column(), l2=p.end().get().line(),
                    c2=p.end().get().column(), r1=z(q, 0), r2=z(q, 1))

    # ---- requests
    def run(self, steps):
        kind = self.front.split('_')[0]
        return getattr(self, 'run_' + ('service' if kind in ('server', 'serial') else kind))(steps)

    def begin(self, e):
        self.e, self.given = e, []
        self.log.clear()
        self.pub.clear()
        J = self.J
        J.SERVER.submit_fails = e['be'] == 'submitexc'
        J.AWAIT_HOOK = self.cancel if e['be'] == 'stopped' else self.on_await
        if e['be'] == 'stopped' and self.env == 'full':
            J.SERVER.on_submit_hook = lambda job: None
        else:
            J.SERVER.on_submit_hook = None
        self.n += 1
        f = e['tr'] if e['tr'] in FILES else 'ok'
        return os.path.join(self.d, f + '.py') if e['tr'] != 'nofile' else os.path.join(self.d, 'nosuch.py')

    def obs(self, kind, shown=(), codes=(), exit=1, said=True, named=True, reasons=False, text=''):
        return dict(kind=kind, exit=exit, shown=list(shown), codes=list(codes), given=list(self.given), said=bool(said),
                    named=bool(named), reasons=reasons, text=text[:600])

    @staticmethod
    def names(e, text):
        return {'timeout': 'timeout|timed out', 'timeout2': 'timeout|timed out', 'abort': 'why not'}.get(e['be'], '') and \
            re.search({'timeout': 'timeout|timed out', 'timeout2': 'timeout|timed out', 'abort': 'why not'}[e['be']], text, re.I)

    def structured(self, e, d):
        """the observation of a to_dict() result."""
        ds = d['diagnostics']
        text = json.dumps(ds)
        named = self.names(e, text)
        shown = [dict(file=os.path.basename(x['file']), l1=x['startLine'], c1=x['startCol'], l2=x['endLine'], c2=x['endCol'],
                      r1=x['reasonPosition'][0] if x['reasonPosition'] else 0,
                      r2=x['reasonPosition'][1] if x['reasonPosition'] else 0)
                 for x in ds if not re.search('timeout|timed out', x['code'] + x['message'], re.I)]
        kind = ('success' if d['success'] else 'cancelled' if d['cancelled'] else 'rejected' if d['translationFailed']
                else 'errors')
        if kind == 'success' and (ds or d['cancelled'] or d['translationFailed']):
            kind = 'contradictory'
        return self.obs(kind, shown, [x['code'] for x in ds], exit=0 if d['success'] else 1, said=bool(ds), named=named,
                        reasons=True, text=text)

    def service_kw(self):
        f = self.front
        return dict(viper_jar_path='double.jar', z3_path='/z', boogie_path='/b',
                    use_viper_server=f in ('server_si', 'server_ca', 'mcp', 'lsp'),
                    verifier_backend='carbon' if f.endswith('_ca') else 'silicon', sif='true' if f.endswith('_sif') else False)

    def cancel(self, fut):
        self.svc.cancel(job_token=self.token)

    def run_service(self, steps):
        from nagini_translation.service import VerificationService
        self.svc, self.token = VerificationService(**self.service_kw()), 'tok'
        out = []
        for e in steps:
            p = self.begin(e)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = self.svc.verify(p, job_token='tok')
                o = self.structured(e, r.to_dict())
            except Exception as ex:         # noqa
                o = self.exc(ex)
            out.append(dict(e=e, obs=o))
        return out

    def exc(self, ex):
        import traceback
        return self.obs('exception', said=bool(str(ex)), named=self.names(self.e, str(ex)), text=traceback.format_exc()[-500:])

    def run_mcp(self, steps):
        from nagini_translation import mcp_server as m
        from nagini_translation.service import VerificationService
        m._service = self.svc = VerificationService(**self.service_kw())
        self.token = 'tok'
        out = []
        for e in steps:
            p = self.begin(e)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    o = self.structured(e, asyncio.run(m.verify_file(p, job_token='tok', base_dir=self.d)))
            except Exception as ex:         # noqa
                o = self.exc(ex)
            out.append(dict(e=e, obs=o))
        return out

    def run_lsp(self, steps):
        from nagini_translation import lsp_server as L
        from nagini_translation.service import VerificationService
        ls = L.NaginiLanguageServer()
        ls.window_log_message = lambda p: self.log.append(p)
        ls.text_document_publish_diagnostics = lambda p: self.pub.append(p)
        ls.counterexamples = False
        kw = self.service_kw()
        ls.service = self.svc = VerificationService(**kw)
        out = []
        for e in steps:
            p = self.begin(e)
            self.token = uri = 'file://' + p
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    asyncio.run(ls.run_verification(uri))
                msgs = [x.message for x in self.log[1:]]
                ds = [x for pb in self.pub for x in pb.diagnostics]
                text = json.dumps([[x.message, x.code] for x in ds] + msgs)
                shown = [dict(file=os.path.basename(uri), l1=x.range.start.line + 1, c1=x.range.start.character,
                              l2=x.range.end.line + 1, c2=x.range.end.character,
                              r1=x.related_information[0].location.range.start.line + 1 if x.related_information else 0,
                              r2=x.related_information[0].location.range.start.character if x.related_information else 0)
                         for x in ds if not re.search('timeout|timed out', str(x.code) + x.message, re.I)]
                if any('verification successful' in x for x in msgs):
                    kind = 'success' if self.pub and not ds else 'contradictory'
                elif any('failed' in x for x in msgs):
                    code = ds[0].code if ds else ''
                    kind = 'rejected' if code in ('type.error', 'invalid.program', 'unsupported', 'consistency.error') else 'errors'
                    if not self.pub:
                        kind = 'contradictory'
                elif msgs:
                    kind = 'exception'
                else:
                    kind = 'cancelled' if not self.pub else 'contradictory'
                o = self.obs(kind, shown, [x.code for x in ds], exit=0 if kind == 'success' else 1, said=bool(ds or msgs),
                             named=self.names(e, text), reasons=True, text=text)
            except Exception as ex:         # noqa
                o = self.exc(ex)
            out.append(dict(e=e, obs=o))
        return out

    # ---- the command line
    def argv(self, p):
        f = self.front
        a = ['nagini', '--viper-jar-path', 'double.jar', '--z3', '/z', '--boogie', '/b', '--base-dir', self.d, '--ide-mode']
        a += ['--verifier', 'carbon'] if f.endswith('_ca') else []
        a += ['--viper-server'] if f.endswith('_vs') else []
        a += ['--sif', 'true'] if f.endswith('_sif') else []
        return a + [p]

    ERR = re.compile(r'^(?P<f>[^:\n]*):(?P<l1>\d+):(?P<c1>\d+):(?P<l2>\d+):(?P<c2>\d+): error: (?P<msg>.*)$', re.M)

    def textual(self, e, text, code):
        shown, codes = [], []
        body = text
        for x in self.ERR.finditer(text):
            shown.append(dict(file=os.path.basename(x['f']), l1=int(x['l1']), c1=int(x['c1']) - 1, l2=int(x['l2']),
                              c2=int(x['c2']) - 1, r1=0, r2=0))
            for t, n in (('Type error', 'type.error'), ('Invalid program', 'invalid.program'), ('Not supported', 'unsupported')):
                if x['msg'].startswith(t):
                    codes.append(n)
        if 'inconsistencies' in text:
            codes.append('consistency.error')
        if 'Type' in text and 'Translation failed' in text and not shown:
            codes.append('type.error')
        if 'Verification successful' in text:
            kind = 'success' if 'failed' not in text and not shown else 'contradictory'
        elif 'Translation failed' in text or 'consistency.error' in codes:
            kind = 'rejected'
        elif 'Verification failed' in text:
            kind = 'errors'
        else:
            kind = 'exception'
        return self.obs(kind, shown, codes, exit=code, said=bool(re.sub(r'\s', '', text)), named=self.names(e, body), text=text)

    def run_cli(self, steps):
        from nagini_translation import main as M
        e = steps[0]
        p = self.begin(e)
        sys.argv = self.argv(p)
        buf = io.StringIO()
        code = None

        def ex(c):
            raise Exit(c)
        old, os._exit = os._exit, ex
        try:
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                M.main()
            code = 0
        except (Exit, SystemExit) as x:
            code = x.args[0] if x.args else 0
        except Exception:           # noqa: an uncaught exception: Python prints it and exits with 1
            import traceback
            buf.write(traceback.format_exc())
            code = 1
        finally:
            os._exit = old
        return [dict(e=e, obs=self.textual(e, buf.getvalue(), int(code or 0) if isinstance(code, (int, type(None))) else 1))]

    def run_loop(self, steps):
        from nagini_translation import main as M
        out, todo, me = [], list(steps), self

        class Socket:
            def bind(self, *_):
                pass

            def recv_string(self):
                if not todo:
                    raise Stop()
                e = todo.pop(0)
                p = me.begin(e)
                out.append(dict(e=e, obs=me.obs('none')))
                return json.dumps(dict(file=p))

            def send_string(self, s):
                t = me.textual(me.e, s, 0)
                t['exit'] = 0 if t['kind'] == 'success' else 1
                out[-1]['obs'] = t
        z = types.ModuleType('zmq')
        z.REP = 1
        z.Context = lambda: types.SimpleNamespace(socket=lambda k: Socket())
        sys.modules['zmq'] = z
        sys.argv = self.argv('unused.py')
        sys.argv.insert(1, '--server')
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                M.main()
        except Stop:
            pass
        except Exception as ex:       # noqa: the server is gone
            import traceback
            out[-1]['obs'] = dict(self.obs('none'), text=traceback.format_exc()[-600:])
        return out


FRONTS = ['server_si', 'server_ca', 'mcp', 'lsp', 'serial_si', 'serial_ca', 'serial_sif', 'mcp_direct', 'lsp_direct',
          'cli', 'cli_ca', 'cli_vs', 'cli_sif', 'loop', 'loop_vs']


def prepare(c):
    d = os.path.join(c.work, 'files')
    os.makedirs(d)
    for f, t in FILES.items():
        open(os.path.join(d, f + '.py'), 'w').write(t)
    nag.setup(os.path.join(d, 'cwd'))
    import nagini_translation.lsp_server      # noqa: imported once, before forking
    import nagini_translation.mcp_server      # noqa
    nag.memo_mypy()
    from nagini_translation.lib.typeinfo import TypeInfo
    for base in (None, d):
        TypeInfo().check(os.path.join(d, 'ok.py'), base)
    return d


def run(c):
    consts = dict(Fronts='{%s}' % ', '.join('"%s"' % f for f in FRONTS), MaxErr=2)
    seqspec.modelcheck(c, 'Endings', consts, depth=3)
    # every single event in every front once; then random sequences
    rnd = random.Random(vlib.SEED)
    singles = seqspec.generate(c, 'Endings', dict(consts, MaxErr=1), depth=1)
    behs = []
    groups = {}
    for b in singles:
        groups.setdefault(json.dumps(b['scenario']), []).append(b)
    for k, g in sorted(groups.items()):
        sc = g[0]['scenario']
        ev = [x['steps'][0] for x in g]
        rnd.shuffle(ev)
        bad = [e for e in ev if e['tr'] != 'ok']
        back = [e for e in ev if e['tr'] == 'ok' and e['be'] != 'fail']
        fails = [e for e in ev if e['be'] == 'fail']
        extra = [dict(tr='ok', be='fail', errs=s) for s in
                 ([1, 2], [5, 6], [1, 3], [4, 7, 8], [1, 2, 3, 4, 5, 6, 7, 8])]
        good = dict(tr='ok', be='success', errs=[])
        key = sc['front'] in ('server_si', 'serial_si', 'loop', 'cli')
        if sc['env'] != 'full' and not vlib.THOROUGH:
            bad, back, fails, extra = [], [good] if key else rnd.sample(back, 1), [], extra[:1] if key else []
        elif not key and not vlib.THOROUGH:
            bad, fails, extra = rnd.sample(bad, 1), rnd.sample(fails, 1), [rnd.choice(extra[:2])]
        elif not vlib.THOROUGH:
            fails, extra = rnd.sample(fails, 2), extra[:2] + extra[4:]
        q = bad + back + fails + extra
        if sc['front'].startswith('cli'):
            if sc['front'] != 'cli' and not vlib.THOROUGH:
                q = rnd.sample(q, min(len(q), 4)) + [good]
            behs += [dict(scenario=sc, steps=[e]) for e in q]
        else:
            rnd.shuffle(q)
            behs.append(dict(scenario=sc, steps=q + [good]))
    if vlib.THOROUGH:
        behs += seqspec.generate(c, 'Endings', dict(consts, MaxErr=3), depth=8, n=300, seed=vlib.SEED)
    d = prepare(c)

    def one(t):
        i, b = t

        def go():
            return dict(scenario=b['scenario'], steps=Driver(d, b['scenario']).run(b['steps']))
        return nag.fresh(go)
    order = sorted(enumerate(behs), key=lambda t: -len(t[1]['steps']))
    recs = nag.pmap(one, order, timeout=800)
    runs = []
    for (i, b), r in zip(order, recs):
        if nag.is_exc(r):
            c.violation('StartFails', dict(behaviour=b, error=r[1][-1500:]))
        else:
            runs.append(r)
    seqspec.validate(c, 'Endings', runs, consts)
    ends = {(r['scenario']['front'], r['scenario']['env'], s['e']['tr'], s['e']['be']) for r in runs for s in r['steps']}
    c.add(distinct_endings=len(ends), requests=sum(len(r['steps']) for r in runs),
          places_compared=sum(len(s['obs']['given']) for r in runs for s in r['steps']))
