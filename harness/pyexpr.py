"""Python source of the statements PyExpr.tla generates."""
import os
import tempfile

import vlib

PRE = '''from nagini_contracts.contracts import *


class X:
    def __init__(self) -> None:
        Ensures(Acc(self.t) and self.t == 0)  # type: ignore
        Ensures(Acc(self.f) and self.f == 1)  # type: ignore
        self.t = 0  # type: int
        self.f = 1  # type: int

    def val(self, k: int, r: int) -> int:
        Requires(Acc(self.t) and Acc(self.f))
        Ensures(Acc(self.t) and Acc(self.f) and self.t == (Old(self.t) * 7 + k) % 997 and self.f == (Old(self.f) + k) % 5)
        Ensures(Result() == r)
        self.t = (self.t * 7 + k) % 997
        self.f = (self.f + k) % 5
        return r

    def tick(self, k: int, r: bool) -> bool:
        Requires(Acc(self.t) and Acc(self.f))
        Ensures(Acc(self.t) and Acc(self.f) and self.t == (Old(self.t) * 7 + k) % 997 and self.f == (Old(self.f) + k) % 5)
        Ensures(Result() == r)
        self.t = (self.t * 7 + k) % 997
        self.f = (self.f + k) % 5
        return r

    def two(self, k: int, u: int, v: int) -> int:
        Requires(Acc(self.t) and Acc(self.f))
        Ensures(Acc(self.t) and Acc(self.f) and self.t == (Old(self.t) * 7 + k) % 997 and self.f == (Old(self.f) + k) % 5)
        Ensures(Result() == u - v)
        self.t = (self.t * 7 + k) % 997
        self.f = (self.f + k) % 5
        return u - v


@Pure
def add3(u: int, v: int = 7, w: int = 8) -> int:
    return u * 100 + v * 10 + w
'''


def ex(e):
    o = e['o']
    if o == 'const':
        return str(e['c']) if e['c'] >= 0 else '(%d)' % e['c']
    if o in ('a', 'b', 'p'):
        return o
    if o == 'f':
        return 'x.f'
    a = [ex(x) for x in e['es']]
    if o in ('+', '-', '*'):
        return '(%s %s %s)' % (a[0], o, a[1])
    if o in ('//', '%'):
        return '(%s %s %s)' % (a[0], o, e['c'] if e['c'] > 0 else '(%d)' % e['c'])
    if o == 'neg':
        return '(-%s)' % a[0]
    if o in ('abs', 'max', 'min', 'int', 'bool'):
        return '%s(%s)' % (o, ', '.join(a))
    if o == 'cond':
        return '(%s if %s else %s)' % tuple(a)
    if o in ('iand', 'ior', 'and', 'or'):
        return '(%s %s %s)' % (a[0], o.lstrip('i'), a[1])
    if o == 'not':
        return '(not %s)' % a[0]
    if o == 'beq':
        return '(%s %s %s)' % (a[0], '==' if e['c'] else '!=', a[1])
    if o == 'cmp':
        return '(' + a[0] + ''.join(' %s %s' % z for z in zip(e['ops'], a[1:])) + ')'
    if o == 'in':
        return '(%s %s [%s, %s])' % (a[0], 'in' if e['c'] else 'not in', a[1], a[2])
    if o == 'idx':
        return '(%s)[%d]' % (', '.join(a), e['c'] % len(a))
    if o in ('val', 'tick'):
        return 'x.%s(%d, %s)' % (o, e['k'], a[0])
    if o == 'two':
        return ('x.two(v=%s, k=%d, u=%s)' % (a[0], e['k'], a[1])) if e['sw'] else 'x.two(%d, %s, %s)' % (e['k'], a[0], a[1])
    if o == 'add3':
        out = []
        for i, k in enumerate(e['ks']):
            out.append(a[i] if k == i + 1 else 'uvw'[k - 1] + '=' + a[i])
        return 'add3(%s)' % ', '.join(out)
    raise ValueError(o)


RET = '    return (x.t * 10 + x.f) * 1000 + '


def function(p):
    s = p['s']
    a = [ex(e) for e in s['es']]
    ls = ['', '', 'def e_%d(a: int, b: int, p: bool) -> int:' % p['id'], '    x = X()']
    if s['o'] == 'assign':
        ls += ['    r = ' + a[0], RET + 'r']
    elif s['o'] == 'if':
        ls += ['    r = 0', '    if %s:' % a[0], '        r = 1', RET + 'r']
    elif s['o'] == 'field':
        ls += ['    x.f = ' + a[0], RET + '0']
    elif s['o'] == 'tuple':
        ls += ['    r, s = %s, %s' % tuple(a), RET + 'r * 3 + s']
    else:
        ls += ['    l = [%s, %s]' % tuple(a), RET + 'l[0] * 3 + l[1]']
    return '\n'.join(ls)


def generate(work, lo, hi, depth):
    wd = tempfile.mkdtemp(dir=work)
    vlib.copy_specs(wd, 'PyExpr.tla', 'PyExpr.cfg')
    r = vlib.tlc('PyExpr', 'PyExpr.cfg', wd, stack='64m', timeout=300,
                 env=dict(FLOW_LO=str(lo), FLOW_HI=str(hi), FLOW_DEPTH=str(depth)))
    ps = r.prints('OUT')
    if len(ps) != hi - lo + 1:
        raise vlib.TLCError('PyExpr generated %d of %d\n%s' % (len(ps), hi - lo + 1, r.out[-2000:]))
    return ps, r


def files(work, ps, per=20):
    out = []
    for k in range(0, len(ps), per):
        chunk = ps[k:k + per]
        path = os.path.join(work, 'expr_%d.py' % chunk[0]['id'])
        with open(path, 'w') as f:
            f.write(PRE + ''.join(function(p) for p in chunk) + '\n')
        out.append((path, [('e_%d' % p['id'], list(a), ['ret', ['int', e]])
                           for p in chunk for a, e in zip(p['args'], p['exp'])]))
    return out
