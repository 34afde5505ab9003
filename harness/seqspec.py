"""Sequential specifications: TLC generates behaviours, the harness replays them, TLC judges the recording.

A specification module M (spec/M.tla) defines
  Start(c)            the initial state for scenario c,    Scenarios  the set of scenarios (or from JSON)
  Events(st)          the events possible in st,           Effect(st, e)  the state after e
  Clause(st, e, st2, o)  "ok", or the name of the clause the observation o (made after e) breaks
  Inv(st)             invariants of the specification itself
"""
import json
import os
import random

import vlib

GEN = '''---- MODULE Gen%(m)s ----
EXTENDS %(m)s, Json, TLC
CONSTANTS Depth
VARIABLES s, h, c0
Init == \\E c \\in Scenarios : c0 = c /\\ s = Start(c) /\\ h = <<>>
Next == /\\ Len(h) < Depth
        /\\ \\E e \\in Events(s) : s' = Effect(s, e) /\\ h' = Append(h, e)
        /\\ UNCHANGED c0
Spec == Init /\\ [][Next]_<<s, h, c0>>
Emit == (Len(h) = Depth \\/ Events(s) = {}) => PrintT(<<"RUN", ToJson([scenario |-> c0, steps |-> h])>>)
====
'''
MC = '''---- MODULE Mc%(m)s ----
EXTENDS %(m)s
CONSTANTS Depth
VARIABLES s, n
Init == \\E c \\in Scenarios : s = Start(c) /\\ n = 0
Next == n < Depth /\\ n' = n + 1 /\\ \\E e \\in Events(s) : s' = Effect(s, e)
Spec == Init /\\ [][Next]_<<s, n>>
Invar == Inv(s)
View == s
====
'''
TRACE = '''---- MODULE Trace%(m)s ----
EXTENDS %(m)s, Json, IOUtils, TLC
Runs == JsonDeserialize(IOEnv.TRACE)
VARIABLES s, run, i, verdict
vars == <<s, run, i, verdict>>
TInit == run \\in 1..Len(Runs) /\\ i = 0 /\\ s = Start(Runs[run].scenario) /\\ verdict = "ok"
TNext == /\\ verdict = "ok" /\\ i < Len(Runs[run].steps)
         /\\ LET r == Runs[run].steps[i + 1]
            IN i' = i + 1 /\\ s' = Effect(s, r.e) /\\ verdict' = Clause(s, r.e, s', r.obs)
         /\\ UNCHANGED run
TSpec == TInit /\\ [][TNext]_vars
Report ==
  /\\ verdict # "ok" => PrintT(<<"VERDICT", ToJson([run |-> run, step |-> i, clause |-> verdict, state |-> s])>>)
  /\\ (verdict = "ok" /\\ i = Len(Runs[run].steps)) => PrintT(<<"ACCEPTED", ToJson([run |-> run])>>)
====
'''


def _put(c, module, kind, text, consts, tail):
    vlib.copy_specs(c.work, module + '.tla')
    open(os.path.join(c.work, kind + module + '.tla'), 'w').write(text % dict(m=module))
    cfg = kind + module + '.cfg'
    body = ('CONSTANTS\n' + ''.join(' %s = %s\n' % kv for kv in consts.items())) if consts else ''
    open(os.path.join(c.work, cfg), 'w').write(body + tail)
    return cfg


def modelcheck(c, module, consts=None, depth=6, timeout=300):
    """the invariants of the specification itself, exhaustively up to depth."""
    cfg = _put(c, module, 'Mc', MC, dict(consts or {}, Depth=depth), 'SPECIFICATION Spec\nINVARIANT Invar\n')
    r = vlib.tlc('Mc' + module, cfg, c.work, workers=8, timeout=timeout, heap='8g')
    if not r.ok:
        raise vlib.TLCError(r.out[-3000:])
    c.tlc_stats(r)
    return r


def generate(c, module, consts=None, depth=5, n=None, seed=None, timeout=300):
    """behaviours: random ones (n) or all of that depth."""
    cfg = _put(c, module, 'Gen', GEN, dict(consts or {}, Depth=depth), 'SPECIFICATION Spec\nINVARIANT Emit\n')
    r = vlib.tlc('Gen' + module, cfg, c.work, simulate=n, depth=depth + 2 if n else None, seed=seed, timeout=timeout,
                 workers=1, heap='4g')
    if 'Error:' in r.out or not n and not r.ok:
        raise vlib.TLCError(r.out[-3000:])
    c.tlc_stats(r)
    uniq = {}
    for x in r.prints('RUN'):
        # TLC reports every successor of the last state: keep one per simulated prefix
        k = dict(x, steps=x['steps'][:-1]) if n else x
        uniq.setdefault(json.dumps(k, sort_keys=True), []).append(x)
    rnd = random.Random(seed)
    return [rnd.choice(v) for v in uniq.values()]


def validate(c, module, runs, consts=None, timeout=400, key=None, detail=None):
    """runs: [{scenario, steps: [{e, obs}]}]; every rejected run is a violation naming its clause."""
    if not runs:
        raise vlib.TLCError('no recorded runs for ' + module)
    p = os.path.join(c.work, 'trace_%s.json' % module)
    json.dump([dict(scenario=x['scenario'], steps=[dict(e=s['e'], obs=s['obs']) for s in x['steps']]) for x in runs],
              open(p, 'w'))
    cfg = _put(c, module, 'Trace', TRACE, consts, 'SPECIFICATION TSpec\nINVARIANT Report\n')
    r = vlib.tlc('Trace' + module, cfg, c.work, env={'TRACE': p}, timeout=timeout, heap='4g', stack='256m')
    if not r.ok:
        raise vlib.TLCError(r.out[-3000:])
    acc, bad = r.prints('ACCEPTED'), r.prints('VERDICT')
    c.tlc_stats(r)
    for v in bad:
        run = runs[v['run'] - 1]
        c.violation(v['clause'], dict(scenario=run['scenario'], steps=run['steps'][:v['step']], state=v['state'],
                                      detail=run.get('detail')),
                    key=key(run, v) if key else None)
    if len(acc) + len(bad) != len(runs):
        raise vlib.TLCError('trace validation incomplete: %d of %d\n%s' % (len(acc) + len(bad), len(runs), r.out[-2000:]))
    c.add(traces_validated_against_impl=len(acc), trace_events=sum(len(x['steps']) for x in runs))
    c.samples += [dict(scenario=x['scenario'], steps=x['steps'][:4]) for x in runs[:2]]
