"""T06: Types.tla against the type domain of translated programs.

TypesGen.tla enumerates class hierarchies; each one sampled is written down as a Python program and translated, and TLC
judges the axioms of the type domain against the hierarchy.
"""
import json
import os
import random
import tempfile

import nag
import vlib

K = {'And': 'and', 'Or': 'or', 'Implies': 'imp', 'Not': 'not', 'EqCmp': 'eq', 'NeCmp': 'ne'}


class NotSpecified(Exception):
    pass


def ex(e):
    o = dict(k=e.kind, n='', i=0, a=[])
    if e.kind in K:
        o.update(k=K[e.kind], a=[ex(c) for c in ([e._exp] if e.kind == 'Not' else [e._left, e._right])])
    elif e.kind == 'LocalVar':
        o.update(k='var', n=str(e._name))
    elif e.kind == 'IntLit':
        o.update(k='int', i=int(str(e._i)))
    elif e.kind in ('TrueLit', 'FalseLit', 'NullLit'):
        o['k'] = e.kind[:-3].lower()
    elif e.kind == 'DomainFuncApp':
        o.update(k='app', n=str(e._funcname), a=[ex(c) for c in e._args])
    else:
        raise NotSpecified(e.kind)
    return o


def axiom(a):
    e, vs = a._exp, []
    while e.kind == 'Forall':
        for v in e._variables:
            if str(v._typ) not in ('PyType', 'Ref'):
                raise NotSpecified(str(v._typ))
            vs.append(dict(n=str(v._name), t=str(v._typ)))
        e = e._exp
    return dict(name=str(a._name) if hasattr(a, '_name') else 'axiom', vars=vs, e=ex(e))


def T(f, *a):
    return dict(f=f, a=list(a))


def py(t):
    n = 'T' + t['f'][1:] if t['f'].startswith('?') else t['f']
    return n + ('[%s]' % ', '.join(py(c) for c in t['a']) if t['a'] else '')


def source(cls, names):
    o = ['from typing import Generic, TypeVar', 'from nagini_contracts.contracts import *', '', "T1 = TypeVar('T1')", "T2 = TypeVar('T2')", '', '']
    for c, n in zip(cls, names):
        bases = [] if c['sup']['f'] == 'object' else [py(c['sup'])]
        if c['n']:
            bases.append('Generic[%s]' % ', '.join('T%d' % (i + 1) for i in range(c['n'])))
        o += ['class %s%s:' % (n, '(%s)' % ', '.join(bases) if bases else ''), '    def __init__(self) -> None:', '        pass', '', '']
    return '\n'.join(o)


def universe(cls, names):
    us = [T(n) for n in ('object', 'int', 'bool', 'NoneType')] + [T('list', T('int'))]
    by = dict(zip(names, cls))
    todo = [T(n, *([T('int'), T('bool')][:c['n']])) for c, n in zip(cls, names)]
    todo += [T(n, *([T('bool'), T('int')][:c['n']])) for c, n in zip(cls, names) if c['n']][:1]
    if any(c['exc'] for c in cls):
        us.append(T('Exception'))
    subst = lambda t, a: a[int(t['f'][1:]) - 1] if t['f'].startswith('?') else T(t['f'], *[subst(x, a) for x in t['a']])
    while todo:
        t = todo.pop(0)
        if t in us:
            continue
        us.append(t)
        if t['f'] in by and by[t['f']]['sup']['f'] in by:
            todo.append(subst(by[t['f']]['sup'], t['a']))
    mine = [t for t in us if t['f'] in by]
    us += [T('union_type_2', mine[-1], mine[0]), T('union_type_3', T('NoneType'), mine[-1], T('int')), T('union_type_1', T('int'))]
    return us


def work(job):
    cls, names = job
    d = tempfile.mkdtemp(dir=work.dir)
    p = os.path.join(d, 'prog.py')
    with open(p, 'w') as f:
        f.write(source(cls, names))
    r = nag.translate(p)
    if r is None or r[1] is None:
        return dict(rejected=True)
    axioms, skipped, unique = [], [], []
    for dom in r[1]._domains:
        if str(dom._name) != 'PyType':
            continue
        for a in dom._axioms:
            try:
                axioms.append(axiom(a))
            except NotSpecified as e:
                skipped.append(str(e))
        unique += [str(f._name) for f in dom._functions if f._unique]
    return dict(axioms=axioms, skipped=skipped, unique=unique)


def run(check):
    wd = tempfile.mkdtemp(dir=check.work)
    vlib.copy_specs(wd, 'TypesGen.tla', 'TypesGen.cfg', 'Types.tla', 'Types.cfg')
    g = vlib.tlc('TypesGen', 'TypesGen.cfg', wd, workers=1, heap='2g', timeout=300)
    if not g.ok:
        raise RuntimeError(g.out[-2000:])
    check.tlc_stats(g)
    shapes = {}
    for o in g.prints('OUT'):
        c = o['cls']
        shapes.setdefault(str([(x['n'], x['sup']['f']) for x in c]), []).append(c)
    rnd = random.Random(vlib.SEED)
    keys = sorted(shapes)
    rnd.shuffle(keys)
    # hierarchies with inheritance between the classes of the program first
    keys.sort(key=lambda k: (-sum(('\'C%s\'' % l) in k for l in 'abc') - ('2' in k)))
    N = 10
    some = [rnd.choice(shapes[k]) for k in keys[:len(keys) if vlib.THOROUGH else N]]
    rest = keys[N:]
    rnd.shuffle(rest)
    if not vlib.THOROUGH:
        some += [rnd.choice(shapes[k]) for k in rest[:N // 2]]
    names = ['Ca', 'Cb', 'Cc', 'Cd']
    jobs = [(c, names[:len(c)]) for c in some]

    def init():
        nag.setup(tempfile.mkdtemp(dir=check.work))
        work.dir = check.work
    rs = nag.pmap(work, jobs, procs=8, init=init)
    progs, keys, rejected, skipped = [], [], 0, set()
    for (c, ns), r in zip(jobs, rs):
        key = ' '.join('%s/%d<%s' % (n, x['n'], py(x['sup'])) for n, x in zip(ns, c))
        if nag.is_exc(r):
            check.violation('Crash', dict(hierarchy=key, out=r[1][-800:]), key=key)
            continue
        if 'rejected' in r:
            rejected += 1
            continue
        skipped |= set(r['skipped'])
        gen = [dict(f=n, n=x['n']) for n, x in zip(ns, c) if x['n']] + [dict(f='list', n=1), dict(f='dict', n=2)]
        # other generic classes: their axioms are judged over the types of this program
        gen += [dict(f=f, n=1) for f in ('set', 'PSeq', 'PSet', 'PMultiset', 'Iterator')]
        progs.append(dict(sup={n: x['sup'] for n, x in zip(ns, c)}, table='', gen=gen, univ=universe(c, ns), axioms=r['axioms'], unique=r['unique']))
        keys.append((key, source(c, ns)))
    if len(progs) < len(jobs) // 2 and not check.violations:
        raise RuntimeError('%d of %d hierarchies are rejected' % (rejected, len(jobs)))
    for i in range(0, len(progs), 100):
        json.dump(dict(programs=progs[i:i + 100]), open(os.path.join(wd, 'in.json'), 'w'))
        r = vlib.tlc('Types', 'Types.cfg', wd, workers=8, heap='6g', env={'TYPES_INPUT': os.path.join(wd, 'in.json')}, timeout=3000 if vlib.THOROUGH else 800)
        if not r.ok:
            raise RuntimeError(r.out[-2000:])
        check.tlc_stats(r)
        n = 0
        for o in r.prints('OUT'):
            n += 1
            key, src = keys[i + o['prog'] - 1]
            check.add(facts=o['n'])
            if o['v'] != 'ok':
                check.violation(o['v'], dict(hierarchy=key, what=o['d'], program=src), key='%s:%s' % (key, o['d']))
        if n != len(progs[i:i + 100]):
            raise RuntimeError('%d of %d verdicts' % (n, len(progs[i:i + 100])))
    check.samples += [dict(hierarchy=k[0]) for k in keys[:6]]
    check.add(hierarchies=len(progs), rejected=rejected, axioms=sum(len(p['axioms']) for p in progs), traces_validated=len(progs),
              axioms_not_specified=sorted(skipped))
