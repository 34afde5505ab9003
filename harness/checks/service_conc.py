"""S01 (isolation) and S04 (cancellation): Service.tla, replayed and validated."""
import json
import os

import nag
import svc
import vlib


def schedules(c, n, nreq, cancel, noop, seed, kinds='{"ok", "fail", "reject"}'):
    cfg = ('CONSTANTS Req = {%s}\n Tok = {1,2}\n Kinds = %s\n MaxNoop = %d\n WithCancel = %s\n'
           'SPECIFICATION GSpec\nINVARIANT Emit\n' % (','.join(map(str, range(1, nreq + 1))), kinds, noop,
                                                      'TRUE' if cancel else 'FALSE'))
    with open(os.path.join(c.work, 'gen.cfg'), 'w') as f:
        f.write(cfg)
    r = vlib.tlc('ServiceGen', 'gen.cfg', c.work, simulate=n, depth=40, seed=seed, timeout=120)
    if 'Error:' in r.out:
        raise vlib.TLCError(r.out[-3000:])
    return r.prints('SCHED')


def situations(x):
    """what a schedule exercises: each step with the states of the requests around it, and cancellations with
    what happened since their target registered."""
    kind, tok = x['kind'], x['tok']
    n = len(kind)
    pc, job, tab = ['idle'] * n, ['none'] * n, [0, 0]
    since = {}
    out = set()
    for st in x['steps']:
        a, r = st['a'], st['r']
        if a == 'CancelAll':
            who, tk = 0, 0
        elif a == 'Cancel':
            who, tk = tab[r - 1], r
        else:
            who, tk = r, tok[r - 1]
        me = (pc[who - 1], job[who - 1], kind[who - 1]) if who else ()
        oth = tuple(sorted((pc[i], job[i], tk != 0 and tok[i] == tk, tab[tok[i] - 1] == i + 1 if tok[i] else False)
                           for i in range(n) if i + 1 != who))
        out.add((a, me, oth))
        if who and a == 'Cancel':
            out.add((a, me, frozenset(since.get(who, ()))))
            out.add(('cancel-since', frozenset(since.get(who, ()))))
        elif a == 'Cancel':
            out.add(('cancel-nobody', frozenset((pc[i], job[i]) for i in range(n) if tok[i] == r)))
        for k in since:
            since[k].add((a, (tok[r - 1] if a not in ('Cancel', 'CancelAll') else r) == tok[k - 1], r == k))
        if a == 'Register':
            since[r] = set()
        pc, job, tab = st['pc'], st['job'], st['tab']
    return out


def choose(scheds, n):
    """greedy cover of the situations."""
    from collections import Counter
    sits = [situations(x) for x in scheds]
    left = set().union(*sits) if sits else set()
    total = len(left)
    res, pool = [], set(range(len(scheds)))
    while pool and len(res) < n:
        k = max(pool, key=lambda i: (len(sits[i] & left), -i))
        pool.discard(k)
        res.append(scheds[k])
        left -= sits[k]
    return res, total - len(left), total


def run(c, prop):
    vlib.copy_specs(c.work, 'Service.tla', 'ServiceGen.tla', 'ServiceTrace.tla', 'Service_MC.cfg')
    r = vlib.tlc('Service', 'Service_MC.cfg', c.work, workers=8, timeout=300)
    if not r.ok:
        raise vlib.TLCError(r.out[-3000:])
    c.tlc_stats(r)
    k = 60 if vlib.THOROUGH else 16           # many behaviours are generated, those that cover most are replayed
    n = (600 if vlib.THOROUGH else 120) * k
    if prop == 'S01':
        scheds = (schedules(c, n // 2, 3, False, 0, vlib.SEED) + schedules(c, n // 4, 3, False, 0, vlib.SEED + 7, '{"fail"}')
                  + schedules(c, n // 4, 3, True, 0, vlib.SEED + 13))
    else:
        scheds = (schedules(c, n // 2, 3, True, 3, vlib.SEED + 3, '{"ok", "fail"}')
                  + schedules(c, n // 4, 3, True, 3, vlib.SEED + 5) + schedules(c, n // 4, 2, True, 4, vlib.SEED + 9, '{"fail"}'))
    uniq = {}
    for x in scheds:
        uniq.setdefault(json.dumps(x, sort_keys=True), x)
    scheds, hit, total = choose(list(uniq.values()), n // k)
    c.add(situations=total, situations_exercised=hit)
    d = os.path.join(c.work, 'files')
    svc.write_files(d)
    names = sorted(svc.FILES)
    solos = dict(zip(names, nag.pmap(lambda nm: svc.solo((c.work, d, nm, {})), names)))
    for nm, v in solos.items():
        if nag.is_exc(v):
            c.violation('SoloRequest', v[1][-1500:])
            return
        kind = nm.split('_')[0]
        ok = (v['success'] if kind == 'ok' else not v['success'] and len(v['diagnostics']) >= 1
              and v['translationFailed'] == (kind == 'reject'))
        if not ok:
            c.violation('SoloRequest', {nm: v})
            return

    state = {}

    def init():
        J = nag.setup(os.path.join(c.work, 'w%d' % os.getpid()))
        J.BackendHooks.verify = staticmethod(nag.fail_asserts)
        state['svc'] = svc.make_service()
        state['ctl'] = svc.Ctl(J)
        # warm mypy's cache
        state['ctl'].st = {}
        J.SERVER.on_submit_hook = None
        for nm in ('ok_a', 'fail_c'):
            state['svc'].verify(svc.fpath(d, nm))
        J.SERVER.on_submit_hook = state['ctl'].on_submit

    def one(ix):
        return svc.replay(state['ctl'], state['svc'], d, scheds[ix], solos, ix)
    recs = nag.pmap(one, range(len(scheds)), init=init, timeout=700)
    runs = []
    for ix, rec in enumerate(recs):
        if nag.is_exc(rec):
            c.violation('Harness', rec[1][-2500:], key='sched%d' % ix)
            if len(c.violations) > 3:
                return
            continue
        runs.append(rec)
    validate(c, runs)
    c.samples = runs[:2]


def validate(c, runs):
    if not runs:
        return
    p = os.path.join(c.work, 'trace.json')
    with open(p, 'w') as f:
        json.dump([{k: v for k, v in x.items() if k != 'details'} for x in runs], f)
    nreq = max(len(x['kind']) for x in runs)
    with open(os.path.join(c.work, 'trace.cfg'), 'w') as f:
        f.write('CONSTANTS Req = {%s}\n Tok = {1,2}\n Kinds = {"ok","fail","reject"}\nSPECIFICATION TSpec\nINVARIANT Report\n'
                % ','.join(map(str, range(1, nreq + 1))))
    r = vlib.tlc('ServiceTrace', 'trace.cfg', c.work, env={'TRACE': p}, timeout=300)
    if not r.ok:
        raise vlib.TLCError(r.out[-3000:])
    acc = {x['run'] for x in r.prints('ACCEPTED')}
    for v in r.prints('VERDICT'):
        rec = runs[v['run'] - 1]
        c.violation(v['clause'], dict(kind=rec['kind'], tok=rec['tok'], files=rec.get('files'), step=v['step'],
                                      schedule=[(s['a'], s['r']) for s in rec['steps'][:v['step']]],
                                      expected=v['expected'], observed=v['event']['obs'], details=rec.get('details')))
    if len(acc) + len(r.prints('VERDICT')) != len(runs):
        raise vlib.TLCError('trace validation incomplete: %d of %d\n%s' % (len(acc), len(runs), r.out[-2000:]))
    c.add(traces_validated_against_impl=len(acc), trace_events=sum(len(x['steps']) for x in runs))


def corrupt_demo(c, runs):
    pass
