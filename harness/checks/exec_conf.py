"""T01-T05, T07, T10: programs translated by the code under test, executed by Silver.tla.

The programs live in progs/<property>/*.py; the oracle for each is CPython (pyoracle) together with
the '#! kind' marks.  Generated programs come from the TLA+ specifications PyFlow / PyExpr.
"""
import glob
import json
import os
import shutil
import tempfile

import exec_check
import nag
import vlib

PROGS = os.path.join(vlib.VERIF, 'progs')
CHK = {'T01': True, 'T02': True, 'T03': True, 'T04': True, 'T05': True, 'T07': True, 'T10': True}


def options(path):
    """'# opts: {...}' in the first lines of a program: options of the translation."""
    for line in open(path).read().splitlines()[:5]:
        if line.startswith('# opts:'):
            return json.loads(line[7:])
    return {}


def corpus(prop):
    for p in sorted(glob.glob(os.path.join(PROGS, prop, '*.py'))):
        yield dict(path=p, key=os.path.basename(p), opts=options(p), chk=CHK.get(prop, True))


def skips(prop):
    p = os.path.join(PROGS, 'skip.json')
    return {(e['file'], e['fn'], json.dumps(e['args'])) for e in json.load(open(p)) if e['property'] == prop} \
        if os.path.exists(p) else set()


def judge(check, results, skip=()):
    for r in results:
        key = '%s:%s(%s)' % (r['key'], r['fn'], ', '.join(map(repr, r['args'] or [])))
        if r['verdict'] == 'ok':
            continue
        if (r['key'], r['fn'], json.dumps(r['args'])) in skip:
            check.add(skipped=1)
            continue
        check.violation(r['verdict'], dict(program=r['key'], call=key, expected=r['exp'], got=r['got'],
                                           why=r.get('why')), key=key)


def gen_jobs(check, gen, *args):
    """programs generated from a specification; its outcomes are compared with CPython first."""
    import pyoracle
    wd = tempfile.mkdtemp(dir=check.work)
    ps, r = gen.generate(wd, *args)
    check.tlc_stats(r)
    jobs = []
    for path, cases in gen.files(wd, ps):
        p = pyoracle.Program(open(path).read())
        for fn, a, e in cases:
            g = p.run(fn, a)
            if list(g[:2]) != list(e[:2]):
                raise RuntimeError('%s disagrees with CPython on %s%s: %s / %s\n%s' % (
                    gen.__name__, fn, a, e, g, open(path).read()))
        jobs.append(dict(path=path, key=os.path.basename(path), cases=cases, chk=True))
    check.add(generated_programs=len(ps))
    return jobs


def flow_jobs(check, *a):
    import pyflow
    return gen_jobs(check, pyflow, *a)


def expr_jobs(check, *a):
    import pyexpr
    return gen_jobs(check, pyexpr, *a)


def obj_jobs(check, *a):
    import pyobj
    return gen_jobs(check, pyobj, *a)


def run(check, prop):
    jobs = list(corpus(prop))
    check.add(corpus_files=len(jobs))
    if prop == 'T01':
        base = 1 + 5000 * (vlib.SEED - 1)
        if vlib.THOROUGH:
            jobs += flow_jobs(check, base, base + 700, 2)
            jobs += flow_jobs(check, base + 100000, base + 100400, 3)
        else:
            jobs += flow_jobs(check, base, base + 400, 2)
            jobs += flow_jobs(check, base + 100000, base + 100250, 3)
    if prop == 'T02':
        base = 1 + 20000 * (vlib.SEED - 1)
        n = 12 if vlib.THOROUGH else 1
        jobs += expr_jobs(check, base, base + 250 * n, 2)
        jobs += expr_jobs(check, base + 100000, base + 100000 + 150 * n, 3)
        jobs += expr_jobs(check, base + 200000, base + 200000 + 40 * n, 4)
    if prop == 'T05':
        base = 1 + 5000 * (vlib.SEED - 1)
        jobs += obj_jobs(check, base, base + (1500 if vlib.THOROUGH else 110))
    res = exec_check.run_cases(check, jobs)
    judge(check, res, skips(prop))
    check.samples += [dict(program=r['key'], fn=r['fn'], args=r['args'], expected=r['exp'], got=r['got'])
                      for r in res[::max(1, len(res) // 8)]][:8]
    check.add(traces_validated=sum(r['verdict'] == 'ok' for r in res))
