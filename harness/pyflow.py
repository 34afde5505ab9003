"""Python source of the programs PyFlow.tla generates."""
import json
import os
import tempfile

import vlib

PRE = '''from nagini_contracts.contracts import *
from typing import Optional


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


class W:
    def __init__(self) -> None:
        Ensures(Acc(self.t) and self.t == 0)  # type: ignore
        self.t = 0

    def __enter__(self) -> int:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == (Old(self.t) * 7 + 1) % 997)
        self.t = (self.t * 7 + 1) % 997
        return 9

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> int:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == (Old(self.t) * 7 + (2 if e is None else 3)) % 997)
        Ensures(Result() == 0)
        self.t = (self.t * 7 + (2 if e is None else 3)) % 997
        return 0


class S:
    def __init__(self) -> None:
        Ensures(Acc(self.t) and self.t == 0)  # type: ignore
        self.t = 0

    def __enter__(self) -> int:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == (Old(self.t) * 7 + 1) % 997)
        self.t = (self.t * 7 + 1) % 997
        return 9

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> bool:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == (Old(self.t) * 7 + 4) % 997)
        Ensures(Result() == isinstance(e, A))
        self.t = (self.t * 7 + 4) % 997
        return isinstance(e, A)


def thrower(n: int) -> int:
    Ensures(n != 1 and n != 2 and n != 3)
    Exsures(A, n == 1 or n == 2)
    Exsures(C, n == 3)
    if n == 1:
        raise A()
    if n == 2:
        raise B()
    if n == 3:
        raise C()
    return n
'''


def block(ss, ind):
    out = []
    for s in ss:
        out += stmt(s, ind)
    return out or [ind + 'pass']


def tick(k):
    return 't = (t * 7 + %d) %% 997' % k


def var(v):
    return 'n' if v == 0 else 'i%d' % v


RET = 'return t * 1000000 + w.t * 1000 + s.t'


def stmt(s, ind):
    o, nx = s['o'], ind + '    '
    if o == 'tick':
        return [ind + tick(s['k'])]
    if o == 'if':
        r = [ind + 'if %s == %d:' % (var(s['c'][0]), s['c'][1])] + block(s['body'], nx)
        if s['els']:
            r += [ind + 'else:'] + block(s['els'], nx)
        return r
    if o == 'raise':
        return [ind + 'raise %s()' % s['x']]
    if o == 'ret':
        return [ind + tick(9), ind + RET]
    if o == 'brk':
        return [ind + 'break']
    if o == 'cnt':
        return [ind + 'continue']
    if o == 'call':
        return [ind + 'thrower(%s)' % var(s['v']), ind + tick(3)]
    if o in ('while', 'for'):
        v = var(s['v'])
        inv = nx + 'Invariant(Acc(w.t) and Acc(s.t))'
        if o == 'while':
            r = [ind + v + ' = 0', ind + 'while %s < %d:' % (v, s['b']), inv, nx + v + ' += 1']
        else:
            r = [ind + 'for %s in range(1, %d):' % (v, s['b'] + 1), inv]
        r += block(s['body'], nx)
        if s['els']:
            r += [ind + 'else:'] + block(s['els'], nx)
        return r
    if o == 'try':
        r = [ind + 'try:'] + block(s['body'], nx)
        for h in s['hs']:
            r += [ind + 'except %s:' % ('Exception' if h['x'] == 'X' else h['x'])] + block(h['body'], nx)
        if s['els']:
            r += [ind + 'else:'] + block(s['els'], nx)
        if s['fin']:
            r += [ind + 'finally:'] + block(s['fin'], nx)
        return r
    if o in ('with', 'withs'):
        return [ind + 'with %s:' % ('w' if o == 'with' else 's')] + block(s['body'], nx)
    raise ValueError(o)


def function(p):
    return '\n'.join(['', '', 'def f_%d(n: int) -> int:' % p['id'], '    Exsures(A, True)', '    Exsures(C, True)',
                      '    t = 0', '    w = W()', '    s = S()'] + block(p['ss'], '    ') + ['    ' + RET])


def generate(work, lo, hi, depth):
    """programs lo..hi of PyFlow with their outcomes on n = 0..4."""
    wd = tempfile.mkdtemp(dir=work)
    vlib.copy_specs(wd, 'PyFlow.tla', 'PyFlow.cfg')
    r = vlib.tlc('PyFlow', 'PyFlow.cfg', wd, stack='64m', timeout=300,
                 env=dict(FLOW_LO=str(lo), FLOW_HI=str(hi), FLOW_DEPTH=str(depth)))
    ps = r.prints('OUT')
    if len(ps) != hi - lo + 1:
        raise vlib.TLCError('PyFlow generated %d programs of %d\n%s' % (len(ps), hi - lo + 1, r.out[-2000:]))
    return ps, r


def files(work, ps, per=8):
    """write the programs to files; (path, cases) per file."""
    out = []
    for k in range(0, len(ps), per):
        chunk = ps[k:k + per]
        path = os.path.join(work, 'flow_%d.py' % chunk[0]['id'])
        with open(path, 'w') as f:
            f.write(PRE + ''.join(function(p) for p in chunk) + '\n')
        cases = []
        for p in chunk:
            for n, e in enumerate(p['exp']):
                cases.append(('f_%d' % p['id'], [n], ['ret', ['int', e[1]]] if e[0] == 'ret' else e))
        out.append((path, cases))
    return out
