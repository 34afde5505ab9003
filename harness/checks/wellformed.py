"""T08: WellFormed.tla against the programs handed to the backend.

Every distinct member of every translated program (with the declarations it refers to) is judged by TLC,
and for every program the names it declares and the names given to the elements of the Python program.
"""
import contextlib
import glob
import hashlib
import io
import json
import os
import random
import tempfile

import exec_check
import nag
import vlib
from checks import exec_conf

OPTS = [dict(), dict(arp=True), dict(ignore_global=True), dict(float_encoding='real'), dict(float_encoding='ieee32'),
        dict(counterexample=True), dict(bv_size=12)]
BODY = {'If': ('thn', 'els'), 'While': ('body',), 'Seqn': ('ss',)}


def ty(t):
    from fakejvm import silver as S
    if t is None:
        return ['None']
    if isinstance(t, S.TypeVar):
        return ['Var', str(t._name)]
    if isinstance(t, (S.SeqType, S.SetType, S.MultisetType)):
        return [{S.SeqType: 'Seq', S.SetType: 'Set', S.MultisetType: 'Multiset'}[type(t)], ty(t._e)]
    if isinstance(t, S.MapType):
        return ['Map', ty(t._k), ty(t._v)]
    if isinstance(t, S.DomainType):
        return ['Dom', str(t._n), [ty(a) for a in t.args()]]
    return [str(t)] if isinstance(t, S.Type) else ['NotAType ' + repr(t)[:60]]


def decls(ds):
    return [[str(d._name), ty(d._typ)] for d in ds]


class Enc:
    def __init__(self):
        self.used = {k: set() for k in ('funcs', 'dfuncs', 'preds', 'fields', 'meths')}

    def node(self, n):
        from fakejvm import silver as S
        o = dict(k='Unknown', t=['None'], n='', c=[], a=[], d=[], m=[], s=[])
        if not isinstance(n, S.Node):
            return dict(o, k='Value ' + repr(n)[:60])
        k = n.kind
        o['k'] = k
        g = n.__dict__
        if isinstance(n, S.Exp):
            try:
                o['t'] = ty(n.typ())
            except Exception as e:
                o['t'] = ['Untyped ' + type(e).__name__]
        if k == 'FieldAccess':
            o['n'] = str(n._field._name)
            self.used['fields'].add(o['n'])
            o['c'] = [self.node(n._rcv)]
            return o
        if k in ('PredicateAccess', 'PredicateInstance'):
            o['n'] = str(g.get('_predicateName', g.get('_p')))
            self.used['preds'].add(o['n'])
        elif k == 'FuncApp':
            o['n'] = str(n._funcname)
            self.used['funcs'].add(o['n'])
        elif k == 'DomainFuncApp':
            o['n'] = str(n._funcname)
            self.used['dfuncs'].add(o['n'])
            o['m'] = [[str(p._name), ty(v)] for p, v in n._typVarMap.d.items()]
        elif k == 'MethodCall':
            o['n'] = str(n._methodName)
            self.used['meths'].add(o['n'])
            o['c'] = [self.node(x) for x in n._targets.items]
            o['a'] = [self.node(x) for x in n._args.items]
            return o
        elif k == 'NewStmt':
            o['m'] = [str(f._name) for f in n._fields.items]
            self.used['fields'] |= set(o['m'])
            o['c'] = [self.node(n._lhs)]
            return o
        elif k in ('Label', 'Goto', 'LabelledOld', 'LocalVar'):
            o['n'] = str(g.get('_name', g.get('_target', g.get('_oldLabel'))))
            if k == 'LabelledOld':
                o['c'] = [self.node(n._exp)]
            return o
        elif k == 'Seqn':
            o['d'] = decls([d for d in n._scopedSeqnDeclarations.items if d.kind == 'LocalVarDecl'])
            o['s'] = [self.node(x) for x in n._ss.items]
            return o
        elif k == 'If':
            return dict(o, c=[self.node(n._cond)], s=[self.node(n._thn), self.node(n._els)])
        elif k == 'While':
            return dict(o, c=[self.node(n._cond)], a=[self.node(x) for x in n._invs.items], s=[self.node(n._body)])
        elif k == 'Let':
            return dict(o, d=decls([n._variable]), c=[self.node(n._exp), self.node(n._body)])
        elif k in ('Forall', 'Exists', 'ForPerm'):
            o['d'] = decls(n._variables.items)
            if k == 'ForPerm':
                return dict(o, c=[self.node(n._resource), self.node(n._body)])
            return dict(o, c=[self.node(n._exp)], a=[self.node(x) for t in n._triggers.items for x in t._exps.items])
        if k.startswith('SIF') and isinstance(n, S.Stmt):
            for c in n.children():
                (o['s'] if isinstance(c, S.Stmt) else o['c']).append(self.node(c))
            return o
        for f in n.FIELDS:
            self.add(o, f, g['_' + f])
        return o

    def add(self, o, f, v):
        from fakejvm import silver as S
        if isinstance(v, S.Some):
            v = v.v
        if isinstance(v, S.Node):
            o['c'].append(self.node(v))
        elif isinstance(v, S.Seq) and all(isinstance(x, S.Node) for x in v.items):
            o['a'] += [self.node(x) for x in v.items]


def members(pr):
    """the members of a program, each with the signatures it refers to."""
    from fakejvm import silver as S
    # the type of an application is that of the declaration (Viper's text form has no other)
    fty = {str(f._name): f._typ for f in pr._functions}
    for m in list(pr._functions) + list(pr._predicates) + list(pr._methods) + list(pr._domains):
        for x in m.walk():
            if x.kind == 'FuncApp':
                x.__dict__['_typ'] = fty.get(str(x._funcname), x._typ)
    sig = dict(funcs={str(f._name): dict(a=[t for _, t in decls(f._formalArgs)], t=ty(f._typ)) for f in pr._functions},
               dfuncs={str(f._name): dict(a=[ty(a._typ) for a in f._formalArgs], t=ty(f._typ)) for d in pr._domains for f in d._functions},
               preds={str(f._name): [t for _, t in decls(f._formalArgs)] for f in pr._predicates},
               fields={str(f._name): ty(f._typ) for f in pr._fields},
               meths={str(f._name): dict(a=[t for _, t in decls(f._formalArgs)], r=[t for _, t in decls(f._formalReturns)])
                      for f in pr._methods})
    doms = {str(d._name): len(d._typVars) for d in pr._domains}
    doms.setdefault('PredicateInstance', 0)
    out = []

    def put(kind, m, **kw):
        e = Enc()
        o = dict(kind=kind, name=str(getattr(m, '_name', '')), args=[], rets=[], t=[], tv=[], pres=[], posts=[], axioms=[], body=[])
        for k, v in kw.items():
            o[k] = [e.node(x) for x in v] if k in ('pres', 'posts', 'axioms', 'body') else v
        o['sig'] = dict({k: dict({'$none': None}, **{n: sig[k][n] for n in sorted(us) if n in sig[k]}) for k, us in e.used.items()}, doms=doms)
        for k in sig:
            o['sig'][k]['$none'] = {'funcs': dict(a=[], t=[]), 'dfuncs': dict(a=[], t=[]), 'preds': [], 'fields': ['Ref'], 'meths': dict(a=[], r=[])}[k]
        s = json.dumps(o, sort_keys=True)
        out.append((hashlib.sha1(s.encode()).hexdigest()[:20], s))

    def opt(b):
        return [b.v] if isinstance(b, S.Some) else []
    for f in pr._functions:
        put('function', f, args=decls(f._formalArgs), t=ty(f._typ), pres=f._pres.items, posts=f._posts.items, body=opt(f._body))
    for f in pr._predicates:
        put('predicate', f, args=decls(f._formalArgs), body=opt(f._body))
    for f in pr._methods:
        put('method', f, args=decls(f._formalArgs), rets=decls(f._formalReturns), pres=f._pres.items, posts=f._posts.items,
            body=opt(f._body))
    for d in pr._domains:
        tv = [str(t._name) for t in d._typVars]
        for f in d._functions:
            # parameters of domain functions need no distinct names
            put('domain function', f, args=[['%d' % i, ty(a._typ)] for i, a in enumerate(f._formalArgs)], t=ty(f._typ), tv=tv)
        put('domain', d, axioms=[a._exp for a in d._axioms], tv=tv)
    names = [str(x._name) for x in list(pr._functions) + list(pr._predicates) + list(pr._methods) + list(pr._fields) + list(pr._domains)]
    names += [str(f._name) for d in pr._domains for f in d._functions]
    names += ['%s!%s' % (d._name, a._name) for d in pr._domains for a in d._axioms if getattr(a, '_name', None)]
    return out, names


def elements(modules, pr):
    """names of the Python elements that have a declaration of their own in the Viper program."""
    out, seen = [], set()
    declared = {str(x._name) for x in list(pr._functions) + list(pr._predicates) + list(pr._methods) + list(pr._fields)}
    declared |= {str(f._name) for d in pr._domains for f in d._functions}

    def add(scope, x):
        n = getattr(x, 'sil_name', None)
        if n is None or id(x) in seen:
            return
        seen.add(id(x))
        if scope or str(n) in declared:
            out.append(dict(scope=scope, name=str(n)))

    def vals(d):
        return list(d.values()) if isinstance(d, dict) else list(d or ())

    def method(m):
        add('', m)
        if not str(getattr(m, 'sil_name', '')):
            return
        for v in vals(getattr(m, '_args', {})) + vals(getattr(m, 'locals', {})):
            add('in ' + str(m.sil_name), v)
    for m in modules:
        for f in vals(getattr(m, 'functions', {})) + vals(getattr(m, 'methods', {})):
            method(f)
        for p in vals(getattr(m, 'predicates', {})) + vals(getattr(m, 'io_operations', {})):
            add('', p)
        for c in vals(getattr(m, 'classes', {})):
            add('', c)
            for f in vals(getattr(c, 'functions', {})) + vals(getattr(c, 'methods', {})) + vals(getattr(c, 'static_methods', {})):
                method(f)
            for f in vals(getattr(c, 'fields', {})):
                add('', f)
            for f in vals(getattr(c, 'static_fields', {})):
                add('', f)
    return out


def translate(job):
    path, opts = job
    from nagini_translation import main as M
    opts = dict(opts)
    bv = opts.pop('bv_size', 8)
    nag.reset_obligations()
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            r = M.translate(path, nag.the_jvm(), bv, reload_resources=bool(job[1]), base_dir=os.path.dirname(path), **opts)
    except Exception as e:
        return dict(rejected='%s: %s' % (type(e).__name__, str(e)[:300]))
    if r is None or r[1] is None:
        return dict(rejected=buf.getvalue()[-300:] or 'type error')
    ms, names = members(r[1])
    el = elements(r[0], r[1])
    # only what no other program of this worker has brought already
    new = [(h, s) for h, s in ms if h not in translate.seen]
    translate.seen |= {h for h, _ in new}
    return dict(new=new, count=len(ms), names=names, elems=el)


translate.seen = set()


def judge(check, ms, ps):
    wd = tempfile.mkdtemp(dir=check.work)
    n = 8
    vlib.copy_specs(wd, 'WellFormed.tla', 'WellFormed.cfg')

    def one(i):
        f = os.path.join(wd, 'in%d.json' % i)
        with open(f, 'w') as o:
            o.write('{"members":[%s],"programs":%s}' % (','.join(s for _, s in ms[i::n]), json.dumps([p for _, p in ps[i::n]])))
        r = vlib.tlc('WellFormed', 'WellFormed.cfg', wd, workers=1, heap='3g', stack='256m', env={'WELLFORMED_INPUT': f}, timeout=700)
        if not r.ok:
            raise RuntimeError(r.out[-2000:])
        return i, r
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        for i, r in ex.map(one, range(n)):
            check.tlc_stats(r)
            got = 0
            for o in r.prints('OUT'):
                got += 1
                if o['v'] == 'ok':
                    continue
                key, x = (ms if o['kind'] == 'm' else ps)[i::n][o['i'] - 1]
                name = json.loads(x)['name'] if o['kind'] == 'm' else ''
                check.violation(o['v'], dict(program=key, member=name, what=o['what'], others=o['n'] - 1),
                                key='%s:%s:%s' % (key, name, o['what']))
            if got != len(ms[i::n]) + len(ps[i::n]):
                raise RuntimeError('no verdict on every member: %d' % got)
            check.add(traces_validated=got)


def run(check):
    rnd = random.Random(vlib.SEED)
    own = sorted(glob.glob(os.path.join(vlib.VERIF, 'progs', '*', '*.py')))
    jobs = [(p, dict()) for p in own]
    mine = [p for p in own if os.sep + 'T08' + os.sep in p]
    jobs += [(p, o) for p in mine for o in OPTS[1:]]
    far = []
    for sub in ('functional/verification', 'obligations/verification', 'io/verification', 'functional/translation'):
        for root, _, fs in sorted(os.walk(os.path.join(nag.REPO, 'tests', sub))):
            far += [os.path.join(root, f) for f in sorted(fs) if f.endswith('.py') and 'resources' not in root]
    rnd.shuffle(far)
    jobs += [(p, dict()) for p in (far if vlib.THOROUGH else far[:110])]
    if vlib.THOROUGH:
        jobs += [(p, rnd.choice(OPTS[1:])) for p in own + far]
    rs = nag.pmap(translate, jobs, procs=8, init=lambda: nag.setup(tempfile.mkdtemp(dir=check.work)))
    ms, ps, rejected = {}, [], 0
    for (p, o), r in zip(jobs, rs):
        key = os.path.relpath(p, vlib.VERIF if p.startswith(vlib.VERIF) else nag.REPO) + (' %s' % o if o else '')
        if nag.is_exc(r):
            check.violation('Crash', dict(program=key, out=r[1][-800:]), key=key)
        elif 'rejected' in r:
            rejected += 1
            if p.startswith(vlib.VERIF):
                check.violation('Rejected', dict(program=key, out=r['rejected']), key=key)
        else:
            for h, s in r['new']:
                ms.setdefault(h, (key, s))
            ps.append((key, dict(names=r['names'], elems=r['elems'])))
    check.add(programs=len(ps), rejected=rejected, members=len(ms))
    judge(check, [ms[h] for h in sorted(ms)], ps)
    check.samples += [dict(program=k, declarations=len(p['names']), elements=len(p['elems'])) for k, p in ps[:5]]
    # programs with clashing names still mean what they mean in Python
    ex = list(exec_conf.corpus('T08'))
    exec_conf.judge(check, exec_check.run_cases(check, ex, label='executions'))
