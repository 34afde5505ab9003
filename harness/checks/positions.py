"""E01: failing checks found by executing the translation (Silver.tla), reported through the real error pipeline.

The programs and the calls that violate a contract are those of the corpus; TLC executes the translation with every
Viper node numbered, so that each failure names the very node Viper would report.  A double of the backend reports that node,
the service converts it, and Report.tla compares what the user is shown with the Python source.
"""
import ast
import contextlib
import io
import json
import os
import shutil
import tempfile

import exec_check
import nag
import vlib
from checks import exec_conf

SUBS = ('T03', 'T04', 'T05', 'T07', 'T10', 'E01')


class Ids:
    """numbers the nodes of the user's file instead of giving their lines."""

    def __init__(self, prog, path):
        import ir
        me = self
        me.nodes = [None]

        class Ser(ir.Ser):
            def line(self, n):
                if not super().line(n):
                    return 0
                me.nodes.append(n)
                return len(me.nodes) - 1

        class Lines:
            def __init__(self, ls):
                self.ls = ls

            def __contains__(self, i):
                n = me.nodes[i] if i else None
                return n is not None and n._pos.line() in self.ls
        orig = ir.static_lines
        ir.static_lines = lambda src: Lines(orig(src))
        try:
            self.d = Ser(prog, path).program()
        finally:
            ir.static_lines = orig


def statement(prog, node):
    """(what Viper calls the place of this failing assertion, the node it reports)."""
    for m in prog._methods:
        for p in m._posts.items:
            if any(x is node for x in p.walk()):
                return 'post', p
        for w in m.walk():
            if w.kind == 'While':
                for i in w._invs.items:
                    if any(x is node for x in i.walk()):
                        return 'inv', i
    for f in prog._functions:
        for p in f._posts.items:
            if any(x is node for x in p.walk()):
                return 'post', p
    return None, node


REASON = {'false': 'assertion.false', 'perm': 'insufficient.permission', 'div': 'division.by.zero', 'apppre': 'assertion.false',
          'null': 'receiver.null', 'neg': 'negative.permission'}
STMT = {'FieldAssign': 'assignment.failed', 'LocalVarAssign': 'assignment.failed', 'MethodCall': 'call.failed', 'If': 'if.failed',
        'While': 'while.failed', 'Inhale': 'inhale.failed', 'Exhale': 'exhale.failed', 'Assert': 'assert.failed',
        'Fold': 'fold.failed', 'Unfold': 'unfold.failed'}


def enclosing(prog, node):
    """the statement a check inside an expression belongs to, or the contract, as Viper reports it."""
    for m in prog._methods:
        best = None
        for st in m.walk():
            if st.kind in STMT and any(x is node for x in st.walk()):
                if st.kind in ('If', 'While'):
                    if not any(x is node for x in st._cond.walk()):
                        continue
                best = st
        if best is not None:
            return STMT[best.kind], best
    return None, None


def verror(J, prog, ids, got, k):
    """the error Viper reports for a failed execution; None where the executor does not know the node."""
    kind, a, b = got[1], ids.nodes[got[2]], ids.nodes[got[3]]
    place, _, why = kind.partition(':')
    if place in ('perm', 'apppre', 'div'):
        place, why = '', place
    why = why or 'false'
    reason = REASON.get(why)
    if b is None or reason is None:
        return None
    if why == 'apppre':
        app = [x for x in (b, a) if x is not None and x.kind == 'FuncApp']
        return J.VError('application.precondition', app[0], J.Reason('assertion.false', app[0])) if app else None
    if place in ('post', 'fpost', 'inv-entry', 'inv-preserve', 'exsures'):
        where, n = statement(prog, b)
        if where is None:
            return None
        code = dict(post='postcondition.violated', inv='invariant.not.established' if place == 'inv-entry' else 'invariant.not.preserved')[where]
        return J.VError(code, n, J.Reason(reason, b))
    if a is None:
        return None
    if place == '' and why == 'perm':
        if a.kind in STMT:
            return J.VError(STMT[a.kind], a, J.Reason(reason, a._lhs if a.kind == 'FieldAssign' else a))
        code, st = enclosing(prog, a)
        return J.VError(code, st, J.Reason(reason, a)) if st is not None else None
    if place == 'pre' and a.kind == 'MethodCall':
        return J.VError('call.precondition', a, J.Reason(reason, b))
    if place in ('assert', 'exhale', 'fold', 'unfold') and a.kind in STMT:
        return J.VError(STMT[a.kind], a, J.Reason(reason, b))
    return None


def over(prog, v):
    """the failing check is part of a method that checks an override."""
    return bool(v) and any(str(m._name).endswith('_check') and any(x is v._n for x in m.walk()) for m in prog._methods)


def work(job):
    path, cases = job
    J = work.J
    from nagini_translation.service import VerificationService
    if not hasattr(work, 'svc'):
        work.svc = VerificationService(viper_jar_path='double.jar', z3_path='/z', boogie_path='/b')
    info = []

    def backend(prog, be, args, pid):
        ids = Ids(prog, path)
        cs = []
        for fn, a, e in cases:
            m = exec_check.find_method(ids.d, fn)
            if m in ids.d['meths']:
                cs.append((fn, a, e, m))
        d = exec_check.prune(ids.d, {c[3] for c in cs})
        wd = tempfile.mkdtemp(dir=work.dir)
        json.dump(dict(progs=[d], cases=[dict(prog=1, meth=m, args=exec_check.arguments(d, dict(meth=m, args=a)), terms=[], chk=True, bv=8,
                                              exp=['clean']) for fn, a, e, m in cs]), open(os.path.join(wd, 'in.json'), 'w'))
        vlib.copy_specs(wd, 'Silver.tla', 'SilverConf.tla', 'SilverConf.cfg')
        r = vlib.tlc('SilverConf', 'SilverConf.cfg', wd, workers=1, heap='3g', stack='256m', timeout=300, partial=True,
                     env={'SILVER_INPUT': os.path.join(wd, 'in.json')})
        shutil.rmtree(wd, ignore_errors=True)
        errs = []
        for o in r.prints('OUT'):
            fn, a, e, m = cs[o['case'] - 1]
            if o['got'][0] != 'fail':
                continue
            v = verror(J, prog, ids, o['got'], o['case'])
            info.append(dict(fn=fn, args=a, exp=e, kind=o['got'][1], known=bool(v), code=str(v._id) if v else '',
                             rid=str(v._r._id) if v else '', off=v._n.kind if v else '',
                             override=over(prog, v)))
            if v:
                errs.append(v)
        return J.VFailure(errs) if errs else J.VSuccess()
    J.BackendHooks.verify = staticmethod(backend)
    with contextlib.redirect_stdout(io.StringIO()):
        r = work.svc.verify(path, base_dir=os.path.dirname(path)).to_dict()
    return dict(info=info, diags=r['diagnostics'], kind=str(r.get('status')))


CON = ('Requires', 'Ensures', 'Exsures', 'Invariant')


def facts(src):
    """the syntax nodes of a file."""
    out = []

    def walk(n, con, c1, c2, whole):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in CON:
            for a in n.args:
                walk(a, n.func.id, n.lineno, n.end_lineno, a is n.args[-1])
            put(n, '', 0, 0, False)
            return
        put(n, con, c1, c2, whole)
        for c in ast.iter_child_nodes(n):
            walk(c, con, c1, c2, False)

    def put(n, con, c1, c2, whole):
        if not hasattr(n, 'lineno'):
            return
        name = ''
        if isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
        src = '' if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.While, ast.For, ast.Try, ast.With, ast.If)) else ast.unparse(n)
        out.append(dict(r=[n.lineno, n.col_offset, n.end_lineno, n.end_col_offset], cls=type(n).__name__, name=name, src=src,
                        con=con, c1=c1, c2=c2, whole=whole))
        if isinstance(n, ast.Compare) and len(n.ops) > 1:      # its links
            ops = [n.left] + n.comparators
            for a, b, op in zip(ops, ops[1:], n.ops):
                out.append(dict(out[-1], r=[a.lineno, a.col_offset, b.end_lineno, b.end_col_offset], whole=False,
                                src=ast.unparse(ast.Compare(a, [op], [b]))))
    walk(ast.parse(src), '', 0, 0, False)
    return out


def marks(src):
    """line -> (source of the reported construct, source of the reason)."""
    import re
    res = {}
    for k, l in enumerate(src.splitlines(), 1):
        at, why = re.search(r'# at: (.*?)\s*(?=# why:|$)', l), re.search(r'# why: (.*?)\s*$', l)
        if at or why:
            res[k] = (at.group(1) if at else '', why.group(1) if why else '')
    return res


def norm(t):
    return ast.unparse(ast.parse(t)) if t else ''


def run(check):
    import glob
    jobs = []
    for sub in SUBS:
        for p in sorted(glob.glob(os.path.join(vlib.VERIF, 'progs', sub, '*.py'))):
            if exec_conf.options(p):
                continue
            seen, keep = {}, []
            for c in exec_check.oracle(p):
                k = (c[0], str(c[2]))
                seen[k] = seen.get(k, 0) + 1
                if c[2][0] == 'viol' and seen[k] <= (8 if vlib.THOROUGH else 1):
                    keep.append(c)
            if keep:
                jobs.append((p, keep))
    jobs.sort(key=lambda j: -len(j[1]))

    def init():
        work.J = nag.setup(tempfile.mkdtemp(dir=check.work))
        work.dir = check.work
    rs = nag.pmap(work, jobs, procs=8, init=init)
    progs, names, unknown = [], [], 0
    for (p, cs), r in zip(jobs, rs):
        key = os.path.relpath(p, os.path.join(vlib.VERIF, 'progs'))
        if nag.is_exc(r):
            check.violation('Crash', dict(program=key, out=r[1][-800:]), key=key)
            continue
        src = open(p).read()
        mk = marks(src)
        cases = []
        for i in r['info']:
            if not i['known']:
                unknown += 1
                continue
            e = i['exp']
            ls = sorted(set(e[2])), sorted(set(e[3] if len(e) > 3 else []))
            at = [norm(mk[l][0]) for l in ls[0] + ls[1] if l in mk and mk[l][0]]
            why = [norm(mk[l][1]) for l in ls[0] + ls[1] if l in mk and mk[l][1]]
            cases.append(dict(kind=e[1], lines=ls[0], clines=ls[1], code=i['code'], rid=i['rid'], at=at[0] if at else '',
                              why=why[0] if why else '', override=i['override'], builtin=ls[0] == ls[1], fn=i['fn'], args=str(i['args'])))
        diags = []
        for d in r['diags']:
            code, _, why = d['code'].partition(':')
            rp = d['reasonPosition'] or [0, 0]
            diags.append(dict(file=os.path.basename(d['file'] or ''), r=[d['startLine'], d['startCol'], d['endLine'], d['endCol']], code=code, why=why,
                              rl=rp[0], rc=rp[1], reason=d['reason'] or ''))
        names.append(key)
        progs.append(dict(file=os.path.basename(p), nodes=facts(src), cases=cases[:400], diags=diags[:400]))
    wd = tempfile.mkdtemp(dir=check.work)
    json.dump(dict(programs=progs), open(os.path.join(wd, 'in.json'), 'w'))
    vlib.copy_specs(wd, 'Report.tla', 'Report.cfg')
    r = vlib.tlc('Report', 'Report.cfg', wd, workers=8, heap='4g', env={'REPORT_INPUT': os.path.join(wd, 'in.json')}, timeout=500)
    if not r.ok:
        raise RuntimeError(r.out[-2000:])
    check.tlc_stats(r)
    n = 0
    for o in r.prints('OUT'):
        n += 1
        if o['v'] == 'ok':
            continue
        p = progs[o['prog'] - 1]
        x = p['cases' if o['what'] == 'case' else 'diags'][o['i'] - 1]
        key = '%s:%s' % (names[o['prog'] - 1], '%s(%s)' % (x['fn'], x['args'].strip('[]')) if o['what'] == 'case' else
                         '%s at %s' % (x['code'], x['r'][0]))
        check.violation(o['v'], dict(program=key, what=x), key=key)
    want = sum(len(p['cases']) + len(p['diags']) for p in progs)
    if n != want or not n:
        raise RuntimeError('%d of %d verdicts' % (n, want))
    check.samples += [dict(program=names[k], case=p['cases'][0], report=p['diags'][0]) for k, p in enumerate(progs[:4])]
    check.add(programs=len(progs), failing_checks=sum(len(p['cases']) for p in progs), reports=sum(len(p['diags']) for p in progs),
              not_located=unknown, traces_validated=n)
