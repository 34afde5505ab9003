"""Translate programs with the code under test and check the result against Silver.tla."""
import json
import os
import shutil
import sys
import tempfile
import time

import nag
import vlib


def enc(x):
    if isinstance(x, bool):
        return ['bb', x]
    if isinstance(x, int):
        return ['bi', x]
    if x is None:
        return ['null']
    return x                      # already a specification value, e.g. ['obj', ['ty', 'C', []]]


THREAD = ['obj', ['ty', 'Thread_0', []]]
GHOST = {'_cthread': THREAD, '_caller_measures': ['s', []], '_residue': ['q', 0, 1]}


def arguments(d, c):
    """actual arguments: the parameters of the obligation encoding come before those of the program."""
    me = d['meths'][c['meth']]
    pre = []
    for a in me['args']:
        base = a.rsplit('_', 1)[0]
        if base not in GHOST:
            break
        pre.append(GHOST[base])
    return pre + [enc(x) for x in c['args']]


def find_method(d, fn):
    """the Silver method or function generated for Python name fn (f or C.f)."""
    base = fn.replace('.', '_')
    for tbl in ('meths', 'funcs'):
        if base in d[tbl]:
            return base
    cands = [n for n in d['meths'] if n.rsplit('_', 1)[0] == base and n.rsplit('_', 1)[1].isdigit()]
    return cands[0] if len(cands) == 1 else None


def oracle(path, src=None):
    """[(fn, args, expected)] of a program according to CPython."""
    import pyoracle
    p = pyoracle.Program(src or open(path).read())
    return [(f, a, p.run(f, a)) for f, args in p.entries() for a in args]


def prepare(job):
    """worker: job = dict(path, opts, cases=[(fn,args,exp)] or None) -> (prog json, cases) or error."""
    import ir
    path = job['path']
    cs = job.get('cases')
    if cs is None:
        cs = nag_free(oracle, path)
    r = nag.translate(path, **job.get('opts', {}))
    if r is None or r[1] is None:
        return ('REJECT', 'no translation')
    d = ir.serialize(r[1], path)
    out = []
    for fn, args, exp in cs:
        out.append(dict(fn=fn, meth=find_method(d, fn), args=list(args), exp=exp))
    return d, out


def nag_free(fn, *a):
    return fn(*a)


def prune(d, roots):
    """only what the roots can reach (smaller input for TLC)."""
    seen, work = set(), list(roots)
    keep = dict(funcs={}, meths={}, preds={})

    def names(x):
        if isinstance(x, dict):
            if x.get('o') == 'call':
                yield x['m']
            if x.get('k') in ('app', 'pacc', 'permp', 'pinst'):
                yield x['n']
            for v in x.values():
                if isinstance(v, (dict, list)):
                    yield from names(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    yield from names(v)
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for t in keep:
            if n in d[t]:
                keep[t][n] = d[t][n]
                work += [x for x in names(d[t][n]) if x not in seen]
    # functions the semantics refers to by name
    for t in keep:
        for n in d[t]:
            if n in ('str___val__', 'tuple___val__', '$none') and n not in seen:
                keep[t][n] = d[t][n]
        if not keep[t] and d[t]:
            n = next(iter(d[t]))
            keep[t][n] = d[t][n]
    return dict(d, **keep)


def run_cases(check, jobs, *, chk=False, bv=8, timeout=700, procs=8, label='cases'):
    """Translate and execute all jobs; returns list of result dicts (one per case).

    A job: {path, key, opts, cases}.  Result: {key, fn, args, exp, verdict, got, ...};
    a program that cannot be translated gives one result with verdict Rejected/Crash.
    """
    t0 = time.time()
    res = []
    prep = nag.pmap(prepare, jobs, procs=procs, init=lambda: nag.setup(tempfile.mkdtemp(dir=check.work)))
    groups = []
    for job, p in zip(jobs, prep):
        if nag.is_exc(p):
            res.append(dict(key=job['key'], fn=None, args=None, exp=None, verdict='Rejected', got=p[1][-1500:]))
            continue
        if p[0] == 'REJECT':
            res.append(dict(key=job['key'], fn=None, args=None, exp=None, verdict='Rejected', got=p[1]))
            continue
        d, cs = p
        good = []
        for c in cs:
            if c['meth'] is None or c['meth'] not in d['meths']:
                res.append(dict(key=job['key'], fn=c['fn'], args=c['args'], exp=c['exp'], verdict='NoMethod',
                                got=d['skipped'].get(c['meth'] or '', '')))
            else:
                good.append(c)
        if good:
            groups.append((job, prune(d, {c['meth'] for c in good}), good))
    t1 = time.time()
    # one TLC run per worker, balanced by number of cases
    n = min(procs, len(groups)) or 1
    bins = [[] for _ in range(n)]
    load = [0] * n
    for g in sorted(groups, key=lambda g: -len(g[2])):
        i = load.index(min(load))
        bins[i].append(g)
        load[i] += len(g[2]) + 2

    def tlc(b):
        """run one batch of (job, program, case); returns answers by index, number of states, log."""
        wd = tempfile.mkdtemp(dir=check.work)
        progs, cases, index = [], [], {}
        for job, d, c in b:
            if id(d) not in index:
                progs.append(d)
                index[id(d)] = len(progs)
            cases.append(dict(prog=index[id(d)], meth=c['meth'], args=arguments(d, c), terms=[],
                              chk=job.get('chk', chk), bv=job.get('opts', {}).get('bv_size', bv), exp=c['exp']))
        json.dump(dict(progs=progs, cases=cases), open(os.path.join(wd, 'in.json'), 'w'))
        vlib.copy_specs(wd, 'Silver.tla', 'SilverConf.tla', 'SilverConf.cfg')
        r = vlib.tlc('SilverConf', 'SilverConf.cfg', wd, workers=1, heap='3g', stack='256m',
                     env={'SILVER_INPUT': os.path.join(wd, 'in.json')}, partial=True,
                     timeout=min(timeout, 60 + 3 * len(b)))
        shutil.rmtree(wd, ignore_errors=True)
        return {o['case'] - 1: o for o in r.prints('OUT')}, r

    def one(b):
        todo, rs, ds, gen, dead = [[(job, d, c) for job, d, cs in b for c in cs]], [], 0, 0, 0
        while todo:
            part = todo.pop()
            outs, r = tlc(part)
            ds, gen = ds + r.distinct, gen + r.generated
            left = []
            dead += not outs
            for i, (job, d, c) in enumerate(part):
                o = outs.get(i)
                if o is None and len(part) > 1 and dead < 8:
                    left.append((job, d, c))       # the run stopped before: try again without the others
                    continue
                rs.append(dict(key=job['key'], fn=c['fn'], args=c['args'], exp=c['exp'],
                               verdict=o['verdict'] if o else 'NoAnswer', got=o['got'] if o else r.out[-1500:],
                               n=o['n'] if o else 0, left=o['left'] if o else 0, unk=o['unk'] if o else 0,
                               why=o['why'] if o else []))
            if len(left) == 1 or left and len(left) < len(part):
                todo.append(left)
            elif left:
                todo += [left[:len(left) // 2], left[len(left) // 2:]]
        return rs, ds, gen
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n) as ex:
        for rs, ds, gen in ex.map(one, [b for b in bins if b]):
            res += rs
            check.add(states=ds, transitions=gen)
    check.add(**{label: len(res)})
    check.coverage['t_translate'] = round(check.coverage.get('t_translate', 0) + t1 - t0, 1)
    check.coverage['t_tlc'] = round(check.coverage.get('t_tlc', 0) + time.time() - t1, 1)
    return res
