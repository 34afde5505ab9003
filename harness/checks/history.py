"""S02: History.tla behaviours replayed into the service (server / direct backend) and main --server.

Every answer, and what the backend was given, is compared by TLC with what a process answers that
served nothing else.
"""
import contextlib
import hashlib
import io
import json
import os
import random
import re
import shutil
import sys
import types

import nag
import seqspec
import vlib

HEAD = 'from nagini_contracts.contracts import *\nfrom typing import List, Optional, Dict\n'
FILES = {
 'ok': (HEAD + '''

class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v


def inc(c: Cell, n: int) -> int:
    Requires(Acc(c.v))
    Ensures(Acc(c.v) and c.v == Old(c.v) + n)
    c.v = c.v + n
    assert c.v > n
    return c.v
''', HEAD + '''

# moved by an edit
class Cell:
    def __init__(self, v: int, w: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v


def inc(c: Cell, n: int) -> bool:
    Requires(Acc(c.v))
    Ensures(Acc(c.v))
    c.v = c.v - n
    assert c.v != n
    return c.v > 0
'''),
 'fail': (HEAD + '''

def f(x: int) -> int:
    Ensures(Result() > x)
    assert x > 3
    if x > 5:
        assert x < 100
    return x + 1


def g(x: float, y: int) -> int:
    assert y & 1 == 0 and y >= 0 and y < 10
    return f(y)
''',),
 'oblig': (HEAD + '''from nagini_contracts.obligations import MustTerminate


def loop(n: int) -> int:
    Requires(MustTerminate(2))
    i = 0
    while i < 10:
        Invariant(MustTerminate(10 - i))
        i += 1
    assert i == n
    return i


def twice() -> int:
    Requires(MustTerminate(3))
    return loop(10)
''',),
 'reject': (HEAD + '''

def f(x: int) -> int:
    Requires(x > 0)
    y = [z for z in [1, 2] if z > 1 for w in [1]]
    return x
''',),
 'typeerr': (HEAD + '''

def f(x: int) -> int:
    return 'a' + x
''',),
 'classes': (HEAD + '''

class C:
    def __init__(self) -> None:
        Ensures(Acc(self.a) and self.a == 0)  # type: ignore
        self.a = 0

    def m(self, n: int) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a))
        self.a = n
        assert n > 0
        return self.n()

    def n(self) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a))
        assert self.a != 1
        return 1


def other(c: C) -> int:
    Requires(Acc(c.a))
    Ensures(Acc(c.a))
    assert c is not None
    return c.m(3)
''',),
 'uselib': ('from nagini_contracts.contracts import *\nfrom hlib import val, L\n\n\n' + '''def use(x: L) -> int:
    Requires(Acc(x.f))
    Ensures(Acc(x.f))
    assert val() > 1
    return x.get(val())
''',),
 'globals': (HEAD + '''

LIMIT = 10
names = 'abc'


def get() -> int:
    assert LIMIT == 10
    return LIMIT


t = get()
assert t == 10
''',),
 'io': (HEAD + '''from nagini_contracts.io_contracts import *
from nagini_contracts.io_builtins import (
    no_op_io,
    no_op_io as n_io,
    NoOp,
)


def f(t1: Place) -> Place:
    IOExists1(Place)(
        lambda t2: (
            Requires(token(t1, 2) and no_op_io(t1, t2)),
            Ensures(token(t2) and t2 == Result()),
        )
    )
    t3 = NoOp(t1)
    Assert(t3 is not None)
    return t3
''',),
}
FILES['ghost'] = (HEAD + '''

def f(n: int) -> int:
    g: GInt = n + 1
    x = n
    Assert(g > x)
    Assert(x >= 0)
    return n
''',)
HLIB = [HEAD + '''

class L:
    def __init__(self) -> None:
        Ensures(Acc(self.f))  # type: ignore
        self.f = %(v)s

    def get(self, k: int) -> int:
        Requires(Acc(self.f))
        Ensures(Acc(self.f))%(e)s
        return self.f + k


@Pure
def val() -> int:
    return %(v)s
''' % d for d in (dict(v='3', e=''), dict(v='30', e='\n        assert k != 0'))]


def sha(x):
    return hashlib.sha1(x.encode()).hexdigest()[:16]


class Stop(BaseException):
    pass


class Driver:
    def __init__(self, d, scenario, v):
        self.d, self.front = d, scenario['front']
        self.cwd = os.path.join(d, 'cwd')
        self.dir = os.path.join(d, 'files')
        os.makedirs(self.dir)
        if not os.path.isdir(self.cwd):
            os.makedirs(self.cwd)
        self.J = nag.setup(self.cwd)
        for f, t in FILES.items():
            self.put(f + '.py', t[v['ok'] - 1 if f == 'ok' else 0])
        self.put('hlib.py', HLIB[v['lib'] - 1])
        self.calls = []
        self.o = scenario['o']
        self.J.BackendHooks.verify = staticmethod(self.backend)

    def put(self, n, text):
        p = os.path.join(self.dir, n)
        with open(p, 'w') as f:
            f.write(text)
        # the time of an edit always differs from that of the version before (mypy's cache)
        Driver.clock = getattr(Driver, 'clock', 1700000000) + 10
        os.utime(p, (Driver.clock, Driver.clock))

    def backend(self, prog, backend, args, program_id):
        self.calls.append((self.norm(str(prog)), self.norm(json.dumps([backend, list(args), program_id])),
                           self.norm(positions(prog)), bool(self.J.SIFExtendedTransformer.state.get('transform'))))
        return nag.fail_asserts(prog)

    def norm(self, s):
        return s.replace(self.d, '<D>')

    def kw(self, o):
        return dict(sif='true' if o['sif'] == 'true' else False, int_bitops_size=int(o['bits']),
                    float_encoding=None if o['float'] == 'null' else o['float'],
                    disable_branch_conditions=o['bc'] == 'off', verifier_backend=o['verifier'])

    def run(self, steps):
        if self.front == 'cli':
            return self.run_cli(steps)
        from nagini_translation.service import VerificationService
        s = VerificationService(viper_jar_path='double.jar', z3_path='/z', boogie_path='/b',
                                use_viper_server=self.front == 'server', **self.kw(self.o))
        out = []
        for e in steps:
            obs = dict(exc='', prog='', args='', pos='', res='', ran=0)
            self.calls.clear()
            self.J.SIFExtendedTransformer.state.pop('transform', None)
            try:
                if e['a'] == 'options':
                    s.reconfigure(**self.kw(e['o']))
                elif e['a'] == 'edit':
                    self.edit(e)
                else:
                    r = e['r']
                    with contextlib.redirect_stdout(io.StringIO()):
                        a = s.verify(os.path.join(self.dir, r['f'] + '.py'), selected=set(r['sel'].split(',')) if r['sel'] else None,
                                     counterexample=r['ce'], ignore_global=r['ig'], base_dir=self.dir)
                    self.answer(obs, json.dumps(nag.res_dict(a), sort_keys=True))
            except Exception:       # noqa
                import traceback
                obs['exc'] = traceback.format_exc()[-900:]
            out.append(dict(e=e, obs=obs))
        return out

    def answer(self, obs, text):
        c = self.calls
        obs.update(ran=len(c), prog=sha(str([(x[0], x[3]) for x in c])), args=sha(str([x[1] for x in c])),
                   pos=sha(str([x[2] for x in c])), res=self.norm(text))

    def edit(self, e):
        f = e['r']['f']
        if f == 'ok':
            self.put('ok.py', FILES['ok'][e['v']['ok'] - 1])
        else:
            self.put('hlib.py', HLIB[e['v']['lib'] - 1])

    def run_cli(self, steps):
        from nagini_translation import main as M
        out, todo, me = [], list(steps), self

        class Socket:
            cur = None

            def bind(self, *_):
                pass

            def recv_string(self):
                while todo:
                    e = todo.pop(0)
                    obs = dict(exc='', prog='', args='', pos='', res='', ran=0)
                    out.append(dict(e=e, obs=obs))
                    if e['a'] == 'edit':
                        me.edit(e)
                        continue
                    self.cur = obs
                    me.calls.clear()
                    me.J.SIFExtendedTransformer.state.pop('transform', None)
                    q = dict(file=os.path.join(me.dir, e['r']['f'] + '.py'))
                    if e['r']['sel']:
                        q['select'] = e['r']['sel']
                    return json.dumps(q)
                raise Stop()

            def send_string(self, s):
                me.answer(self.cur, re.sub(r'took [\d.]+ seconds', 'took N seconds', s))
        z = types.ModuleType('zmq')
        z.REP = 1
        z.Context = lambda: types.SimpleNamespace(socket=lambda k: Socket())
        sys.modules['zmq'] = z
        o = self.o
        sys.argv = ['nagini', '--server', '--viper-jar-path', 'double.jar', '--z3', '/z', '--boogie', '/b', '--verifier',
                    o['verifier'], '--int-bitops-size', o['bits'], '--base-dir', self.dir]
        sys.argv += ['--sif', 'true'] if o['sif'] == 'true' else []
        sys.argv += ['--float-encoding', o['float']] if o['float'] != 'null' else []
        sys.argv += ['--disable-branch-conditions'] if o['bc'] == 'off' else []
        sys.argv += ['unused.py']
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                M.main()
        except Stop:
            pass
        except Exception:       # noqa
            import traceback
            if out:
                out[-1]['obs']['exc'] = traceback.format_exc()[-900:]
            else:
                raise
        return out


def positions(prog):
    """where each node of the program says it comes from."""
    out = []
    for part in ('_methods', '_functions', '_predicates'):
        for m in getattr(prog, part):
            for n in m.walk():
                p = getattr(n, '_pos', None)
                if p is not None and hasattr(p, 'line') and n.kind not in ('Seqn',):
                    try:
                        out.append('%s %s:%s' % (n.kind, p.line(), p.column()))
                    except Exception:       # noqa
                        out.append(n.kind)
    return '\n'.join(out)


def key(front, o, r, v):
    rel = dict(ok=v['ok'] if r['f'] == 'ok' else 1, lib=v['lib'] if r['f'] == 'uselib' else 1)
    return json.dumps([front, o, r, rel], sort_keys=True)


def warm(c):
    """a working directory with a mypy cache of the libraries."""
    d = os.path.join(c.work, 'warm')

    def go():
        os.makedirs(d)
        dr = Driver(d, dict(front='serial', o=dict(verifier='silicon', sif='false', bits='8', float='null', bc='on')),
                    dict(ok=1, lib=1))
        dr.run([dict(a='verify', r=dict(f=f, sel='', ce=False, ig=False), o=dr.o, v={}) for f in ('ok', 'io')])
        return True
    r = nag.fresh(go)
    if not r or nag.is_exc(r):
        raise RuntimeError('warm-up failed: %s' % (r,))
    return os.path.join(d, 'cwd')


def one(c, wcwd, i, scenario, steps, v):
    """a fresh process, with its own directories, doing the steps."""
    def go():
        d = os.path.join(c.work, 'run%d' % i)
        os.makedirs(d)
        shutil.copytree(wcwd, os.path.join(d, 'cwd'), symlinks=True)
        try:
            return Driver(d, scenario, v).run(steps)
        finally:
            os.chdir('/')
            shutil.rmtree(d, ignore_errors=True)
    return nag.fresh(go)


def run(c):
    fronts = ('server', 'serial', 'cli')
    consts = dict(MaxOpt=2, Fronts='{"server", "serial", "cli"}')
    os.environ['REFS'] = os.path.join(c.work, 'refs.json')
    json.dump([], open(os.environ['REFS'], 'w'))
    seqspec.modelcheck(c, 'History', consts, depth=3)
    behs = []
    n = {'server': 6, 'serial': 3, 'cli': 3} if not vlib.THOROUGH else {'server': 90, 'serial': 60, 'cli': 50}
    for k, f in enumerate(fronts):
        behs += seqspec.generate(c, 'History', dict(consts, Fronts='{"%s"}' % f), depth=6 if not vlib.THOROUGH else 10,
                                 n=n[f], seed=vlib.SEED * 10 + k)
    rnd = random.Random(vlib.SEED)
    base = dict(ok=1, lib=1)
    # most steps of a random behaviour are requests; the pairs below are always there
    pal = {}
    for b in behs:
        for e in b['steps']:
            if e['a'] == 'verify':
                pal[json.dumps(e['r'], sort_keys=True)] = e['r']
    std = dict(verifier='silicon', sif='false', bits='8', float='null', bc='on')
    rs = [dict(f=f, sel='', ce=False, ig=False) for f in FILES]
    order = []
    for a in rs:            # a walk through many ordered pairs of files
        order += [a, rnd.choice(rs), a]
    for f in fronts:
        rnd.shuffle(rs)
        parts = [rs, rs[::-1]] if f == 'server' or vlib.THOROUGH else [rs]
        for part in parts + ([order[:12], order[12:]] if vlib.THOROUGH else []):
            behs.append(dict(scenario=dict(front=f, o=std), steps=[dict(a='verify', r=x, o=std, v=base) for x in part]))
    # the answers of fresh processes
    need = {}
    for b in behs:
        for e in b['steps']:
            if e['a'] == 'verify':
                rel = dict(ok=e['v']['ok'] if e['r']['f'] == 'ok' else 1, lib=e['v']['lib'] if e['r']['f'] == 'uselib' else 1)
                need[key(b['scenario']['front'], e['o'], e['r'], e['v'])] = (b['scenario']['front'], e['o'], e['r'], rel)
    nag.setup(os.path.join(c.work, 'cwd0'))
    import nagini_translation.service           # noqa: imported once, before forking
    wcwd = warm(c)
    items = [('ref',) + x for x in need.values()] + [('run', b) for b in behs]
    index = list(enumerate(items))

    def go(t):
        i, x = t
        if x[0] == 'ref':
            _, front, o, r, rel = x
            return one(c, wcwd, i, dict(front=front, o=o), [dict(a='verify', r=r, o=o, v=rel)], rel)
        return one(c, wcwd, i, x[1]['scenario'], x[1]['steps'], base)
    recs = nag.pmap(go, index, timeout=800)
    refs, runs = [], []
    for x, r in zip(items, recs):
        if nag.is_exc(r):
            c.violation('StartFails', dict(item=x, error=r[1][-1500:]))
        elif x[0] == 'ref':
            o = r[0]['obs']
            if o['exc']:
                c.violation('FreshRequestFails', dict(item=x, error=o['exc']), key=x[3]['f'])
            refs.append(dict(front=x[1], o=x[2], r=x[3], v=x[4], obs=o))
        else:
            runs.append(dict(scenario=x[1]['scenario'], steps=r))
    json.dump(refs, open(os.environ['REFS'], 'w'))
    seqspec.validate(c, 'History', runs, consts)
    answers = {(s['obs']['ran'], s['obs']['res'][:60]) for r in runs for s in r['steps'] if s['e']['a'] == 'verify'}
    c.add(references=len(refs), distinct_answers=len({r['obs']['res'] for r in refs}),
          distinct_programs=len({r['obs']['prog'] for r in refs}), answer_kinds=len(answers))
