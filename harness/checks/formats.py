"""E02: failures built by Formats.tla, reported through every format by the real front ends; TLC compares them."""
import asyncio
import contextlib
import io
import json
import os
import random
import re
import sys

import nag
import seqspec
import vlib

HEAD = 'from nagini_contracts.contracts import *\nfrom typing import List\n\n\n'
FILES = {
 'prog': HEAD + '''class B:
    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 0)  # type: ignore
        self.n = 0

    @Predicate
    def P(self) -> bool:
        return Acc(self.n) and self.n >= 0

    def m(self, k: int) -> 'B':
        Requires(Acc(self.n) and self.n >= 0)
        Requires(k > 0)
        Ensures(Acc(self.n) and Result() is self)
        Ensures(self.n == Old(self.n) + k)
        self.n = self.n + k
        return self


class C(B):
    def m(self, k: int) -> 'B':
        Requires(Acc(self.n) and self.n >= 0)
        Requires(k > 0)
        Ensures(Acc(self.n) and Result() is self)
        Ensures(self.n == Old(self.n) + k)
        self.n = self.n + k
        return self


@Pure
def half(i: int, j: int) -> int:
    Requires(j != 0)
    return i // j


def climb(b: B, x: int, xs: List[int]) -> int:
    Requires(Acc(b.n) and b.n == 0)
    Requires(Acc(list_pred(xs)) and len(xs) > 2)
    Ensures(Acc(b.n))
    Ensures(Acc(list_pred(xs)))
    Ensures(Result() > x)
    b.m(1).m(2)
    Assert(b.n == 3 and x != 77)
    if (x > 3 and
            b.n > half(x, 2)):
        x = xs[0] + \\
            half(b.n, x)
        Fold(b.P())
        Unfold(b.P())
    while x < 10:
        Invariant(Acc(b.n) and
                  b.n >= 2)
        x += 1
    assert x >= 10, 'x'; assert x > 11
    try:
        if x == 12:
            raise Exception()
        xs[1] = x
    except Exception:
        x = 2
    return x + 1
''',
 'oblig': HEAD + '''from nagini_contracts.obligations import MustTerminate


def dec(n: int) -> int:
    Requires(MustTerminate(n))
    Requires(n > 0)
    Ensures(Result() == 0)
    i = n
    while i > 0:
        Invariant(MustTerminate(i + 1))
        Invariant(i >= 0)
        i -= 1
    return i


def caller(k: int) -> int:
    Requires(MustTerminate(7))
    Requires(k > 0)
    if k > 3:
        return dec(5)
    return dec(3) + dec(2)
''',
 'typeerr': HEAD + 'def f(x: int) -> int:\n    return "a"\n\n\ndef g(y: str) -> str:\n    z = (y +\n         1)\n    return f(y) + z\n',
 'typeerr2': HEAD + 'def f(x: int) -> Int:\n    x = [1,\n         y]\n    return x.foo(\n        3)\n',
 'syntax': HEAD + 'def f(x: int) -> int:\n    return (\n',
 'invalid': HEAD + 'def f(x: int) -> int:\n    y = x\n    Requires(y > 0 and\n             y < 3)\n    return x\n',
 'invalid2': HEAD + 'class A:\n    def f(self, x: int) -> int:\n        Ensures(Result() > g(3))\n        return x\n\n\ndef g(x: int) -> int:\n'
             '    return x\n',
 'unsupported': HEAD + 'def f(x: int) -> int:\n    y = [z for z in [1, 2] if z > 1\n         for w in [1]]\n    return x\n',
}
DOCS = sorted(FILES)
KINDS = {'Assert': 'assert.failed', 'MethodCall': 'call.precondition', 'FieldAssign': 'assignment.failed',
         'LocalVarAssign': 'assignment.failed', 'Exhale': 'exhale.failed', 'Inhale': 'inhale.failed', 'Fold': 'fold.failed',
         'Unfold': 'unfold.failed', 'If': 'if.failed', 'While': 'while.failed', 'FuncApp': 'application.precondition'}
REASON = {'assert.failed': 'assertion.false', 'call.precondition': 'assertion.false', 'exhale.failed': 'insufficient.permission',
          'application.precondition': 'assertion.false', 'postcondition.violated': 'assertion.false',
          'invariant.not.preserved': 'assertion.false', 'invariant.not.established': 'insufficient.permission',
          'if.failed': 'insufficient.permission', 'assignment.failed': 'insufficient.permission',
          'while.failed': 'division.by.zero', 'fold.failed': 'insufficient.permission', 'unfold.failed': 'insufficient.permission',
          'inhale.failed': 'insufficient.permission'}


def has(n):
    from fakejvm import silver as S
    p = getattr(n, '_pos', None)
    return isinstance(p, S.AbstractSourcePosition) and hasattr(p, '_id') and p.end().isDefined()


def pool(prog, doc):
    """[(error id, node, reason id, reason node, vague node)]: every check with a Python position, in order."""
    from nagini_translation.lib.errors import error_manager
    cands = []
    for m in list(prog._methods):
        for p in m._posts.items:
            cands += [('postcondition.violated', x) for x in p.walk() if has(x) and x.kind not in ('IntLit',)][:2]
        for n in m.walk():
            if n.kind == 'While':
                for x in n._invs.items:
                    if has(x):
                        cands += [('invariant.not.preserved', x), ('invariant.not.established', x)]
            if has(n) and n.kind in KINDS:
                cands.append((KINDS[n.kind], n))
    out = []
    for k, n in cands:
        if error_manager._get_item(n._pos) is None or error_manager._get_item(n._pos).node is None:
            continue
        subs = [x for x in n.walk() if has(x) and x._pos != n._pos and x.kind not in ('IntLit',)
                and error_manager._get_item(x._pos).node is not None] or [n]
        vague = [x for x in n.walk() if x.kind in ('IntLit', 'NullLit') and not has(x)]
        out.append((k, n, REASON[k], subs[0], vague[0] if vague else subs[-1]))
    # keep different positions and kinds
    seen, res = {}, []
    for t in out:
        key = (t[0], t[1]._pos.line(), t[1]._pos.column(), str(t[1]._pos.end().get()))
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 2:
            res.append(t)
    return res


class Driver:
    def __init__(self, d):
        self.d = d
        self.J = nag.setup(os.path.join(d, 'cwd'))
        self.J.BackendHooks.verify = staticmethod(self.backend)
        self.errs, self.given = [], []
        from nagini_translation import translator
        orig, me = translator.Translator.translate_program, self

        def translate_program(t, *a, **k):
            prog = orig(t, *a, **k)
            prog.__dict__['pool'] = pool(prog, me.doc)
            return prog
        translator.Translator.translate_program = translate_program

    def backend(self, prog, backend, args, program_id):
        J = self.J
        ps = prog.__dict__['pool']
        branch = [n._cond for m in prog._methods for n in m.walk() if n.kind == 'If' and has(n._cond)
                  and 'perm(' not in str(n._cond)]
        out, self.given = [], []
        for e in self.errs:
            k, n, rid, rn, vn = ps[e['at'] % len(ps)]
            # the same check fails on the same branches
            nb = (n._pos.line() + n._pos.column()) % 3
            ctx = [J.FailureContext(bcs=branch[:nb])] if nb else []
            r = vn if e['vague'] else rn
            out.append(J.VError(k, n, J.Reason(rid, r), ctx))
            p = n._pos
            self.given.append(dict(file=os.path.basename(str(p.file())), l1=p.line(), c1=p.column(),
                                   l2=p.end().get().line(), c2=p.end().get().column(), kind=k))
        return J.VFailure(out)

    def report(self, doc, errs):
        self.doc, self.errs = doc, errs
        o = dict(exc='', shown={}, success={}, given=[], kinds=[], branches={}, vias={}, textends=False)
        f = os.path.join(self.d, doc + '.py')
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.struct(o, f)
                o['given'] = self.given
                self.lsp(o, f)
                self.cli(o, f, 'ide')
                self.cli(o, f, 'text')
        except Exception:       # noqa
            import traceback
            o['exc'] = traceback.format_exc()[-900:]
            for k in ('struct', 'ide', 'lsp', 'text'):
                o['shown'].setdefault(k, [])
                o['success'].setdefault(k, False)
        for k in ('struct', 'text'):
            o['branches'].setdefault(k, [])
            o['vias'].setdefault(k, [])
        o['sets'] = 1
        return o

    def service(self):
        from nagini_translation.service import VerificationService
        if not hasattr(self, 'svc'):
            self.svc = VerificationService(viper_jar_path='double.jar', z3_path='/z', boogie_path='/b')
        return self.svc

    @staticmethod
    def msg(*parts):
        return re.sub(r'\s+', ' ', ' '.join(x for x in parts if x)).strip()

    def struct(self, o, f):
        r = self.service().verify(f, base_dir=self.d).to_dict()
        o['success']['struct'] = r['success']
        o['shown']['struct'] = [dict(file=os.path.basename(x['file']), l1=x['startLine'], c1=x['startCol'], l2=x['endLine'],
                                     c2=x['endCol'], msg=self.msg(x['message'], x['reason']),
                                     rl=x['reasonPosition'][0] if x['reasonPosition'] else 0,
                                     rc=x['reasonPosition'][1] if x['reasonPosition'] else 0) for x in r['diagnostics']]
        o['kinds'] = [dict(l1=x['startLine'], c1=x['startCol'], kind=x['code']) for x in r['diagnostics']]
        o['branches']['struct'] = [[x['startLine'], x['startCol'], b] for x in r['diagnostics'] for b in x['branchConditions']]
        o['vias']['struct'] = [[x['startLine'], x['startCol'], a, os.path.basename(b)] for x in r['diagnostics'] for a, b in x['vias']]

    def lsp(self, o, f):
        from nagini_translation import lsp_server as L
        ls = L.NaginiLanguageServer()
        pub, log = [], []
        ls.window_log_message = lambda p: log.append(p)
        ls.text_document_publish_diagnostics = lambda p: pub.append(p)
        ls.counterexamples = False
        svc, me = self.service(), self
        orig = svc.verify
        svc.verify = lambda *a, **k: orig(*a, base_dir=me.d, **k)
        ls.service = svc
        try:
            asyncio.run(ls.run_verification('file://' + f))
        finally:
            del svc.verify
        o['success']['lsp'] = any('successful' in x.message for x in log)
        out = []
        for x in pub[-1].diagnostics if pub else []:
            ri = x.related_information
            out.append(dict(file=os.path.basename(pub[-1].uri), l1=x.range.start.line, c1=x.range.start.character,
                            l2=x.range.end.line, c2=x.range.end.character, msg=self.msg(x.message),
                            rl=ri[0].location.range.start.line + 1 if ri else 0,
                            rc=ri[0].location.range.start.character if ri else 0))
        o['shown']['lsp'] = out

    IDE = re.compile(r'^(?P<f>[^:\n]*):(?P<l1>\d+):(?P<c1>\d+):(?P<l2>\d+):(?P<c2>\d+): error: (?P<msg>.*)$')
    TXT = re.compile(r'^(?P<msg>.*) \((?P<f>[^()@]*)@(?P<l1>\d+)\.(?P<c1>\d+)(--(?P<l2>\d+)\.(?P<c2>\d+))?(?P<vias>(, via .*)?)\)\.?$')

    def cli(self, o, f, fmt):
        from nagini_translation import main as M
        import argparse
        args = argparse.Namespace(select=None, int_bitops_size=8, sif=False, ignore_global=False, verbose=False,
                                  skip_verification=False, extraction=False, counterexample=False, float_encoding=None,
                                  print_viper=False, write_viper_to_file=None, verifier='silicon', viper_arg=None, benchmark=-1,
                                  submit_for_evaluation=False, ide_mode=fmt == 'ide', show_viper_errors=False,
                                  disable_branch_conditions=False)
        nag.reset_obligations()
        lines = []
        ok = M.translate_and_verify(f, nag.the_jvm() if False else self.service().jvm, args, lambda s: lines.append(s),
                                    base_dir=self.d)
        text = '\n'.join(lines)
        o['success'][fmt] = bool(ok) or 'successful' in text
        shown, bcs, vias = [], [], []
        inb = None
        for ln in text.splitlines():
            x = (self.IDE if fmt == 'ide' else self.TXT).match(ln)
            if x:
                d = dict(file=os.path.basename(x['f']), l1=int(x['l1']), c1=int(x['c1']), l2=int(x['l2'] or 0),
                         c2=int(x['c2'] or 0), msg=self.msg(x['msg']), rl=0, rc=0)
                shown.append(d)
                if fmt == 'text':
                    o['textends'] = o['textends'] or x['l2'] is not None
                    for v in (x['vias'] or '').split(', via ')[1:]:
                        a, b = v.rsplit(' at ', 1)
                        vias.append([d['l1'], d['c1'], a, os.path.basename(b)])
                inb = d
            elif fmt == 'text' and ln.startswith('  ') and inb:
                bcs.append([inb['l1'], inb['c1'], ln[2:]])
            elif ln.startswith('Verification took') or ln in ('Verification failed', 'Errors:', 'Translation failed', '') or \
                    ln.startswith('Branch conditions:'):
                pass
            elif self.doc in ('syntax',) or 'yntax' in ln:
                m = re.match(r'^(?P<f>[^:]*):(?P<l>\d+): error: (?P<m>.*)$', ln)
                shown.append(dict(file=os.path.basename(m['f']) if m else '', l1=int(m['l']) if m else 0, c1=0, l2=0, c2=0,
                                  msg=m['m'] if m else ln, rl=0, rc=0))
            else:
                shown.append(dict(file='', l1=0, c1=0, l2=0, c2=0, msg='unparsed: ' + ln, rl=0, rc=0))
        o['shown'][fmt] = shown
        if fmt == 'text':
            o['branches']['text'], o['vias']['text'] = bcs, vias

    def run(self, b):
        errs, out = [], []
        for e in b['steps']:
            if e['a'] == 'add':
                errs.append(e)
                o = dict(exc='')
            else:
                o = self.report(b['scenario']['doc'], list(errs))
            out.append(dict(e=e, obs=o))
        return dict(scenario=b['scenario'], steps=out)


def run(c):
    consts = dict(Pool=1, MaxErr=2, Docs='{%s}' % ', '.join('"%s"' % d for d in DOCS))
    seqspec.modelcheck(c, 'Formats', consts, depth=4)
    consts = dict(consts, Pool=90, MaxErr=6)
    behs = []
    n = 30 if not vlib.THOROUGH else 1500
    for k, d in enumerate(('prog', 'oblig')):
        behs += seqspec.generate(c, 'Formats', dict(consts, Docs='{"%s"}' % d), depth=7, n=n // (k + 1), seed=vlib.SEED * 7 + k)
    for b in behs:
        q = [e for e in b['steps'] if e['a'] == 'add']
        cut = max(1, len(q) // 2)
        rep = dict(a='report', at=0, vague=False)
        b['steps'] = q[:cut] + ([rep] if vlib.THOROUGH else []) + q[cut:] + [rep]
    for d in DOCS:
        if d not in ('prog', 'oblig'):
            behs.append(dict(scenario=dict(doc=d), steps=[dict(a='report', at=0, vague=False)]))
    d = os.path.join(c.work, 'files')
    os.makedirs(d)
    for f, t in FILES.items():
        open(os.path.join(d, f + '.py'), 'w').write(t)
    nag.setup(os.path.join(d, 'cwd'))
    import nagini_translation.lsp_server      # noqa: imported once, before forking
    nag.memo_mypy()
    from nagini_translation.lib.typeinfo import TypeInfo
    for f in ('prog', 'oblig'):
        TypeInfo().check(os.path.join(d, f + '.py'), d)
    # pairs that share a start, an end, or a place are always there
    ps = {f: places(d, f) for f in ('prog', 'oblig')}
    rnd = random.Random(vlib.SEED)
    for f, p in ps.items():
        near = [(i, j) for i in range(len(p)) for j in range(i) if p[i] != p[j] and (p[i][1:3] == p[j][1:3] or p[i][3] == p[j][3]
                                                                                     or p[i][1] == p[j][1])]
        near = rnd.sample(near, min(len(near), 18 if not vlib.THOROUGH else 300))
        for k in range(0, len(near), 3):
            behs.append(dict(scenario=dict(doc=f), steps=[dict(a='add', at=x, vague=False) for ij in near[k:k + 3] for x in ij] +
                             [dict(a='report', at=0, vague=False)]))
    chunks = [behs[i::24] for i in range(24)]

    def one(bs):
        def go():
            dr = Driver(d)
            return [dr.run(b) for b in bs]
        return nag.fresh(go, timeout=700)
    recs = nag.pmap(one, chunks, timeout=800)
    runs = []
    for b, r in zip(chunks, recs):
        if nag.is_exc(r):
            c.violation('StartFails', dict(error=r[1][-1500:]))
        else:
            runs += r
    seqspec.validate(c, 'Formats', runs, consts)
    obs = [s['obs'] for r in runs for s in r['steps'] if s['e']['a'] == 'report']
    c.add(reports=len(obs), errors_shown=sum(len(o['shown']['struct']) for o in obs), checks_in_pool=sum(map(len, ps.values())),
          kinds=len({k['kind'] for o in obs for k in o['kinds']}), with_branches=sum(bool(o['branches']['struct']) for o in obs),
          with_vias=sum(bool(o['vias']['struct']) for o in obs))


def places(d, f):
    def go():
        nag.setup(os.path.join(d, 'cwd'))
        _, prog = nag.translate(os.path.join(d, f + '.py'), base_dir=d)
        return [(k, n._pos.line(), n._pos.column(), str(n._pos.end().get())) for k, n, *_ in pool(prog, f)]
    return nag.fresh(go)
