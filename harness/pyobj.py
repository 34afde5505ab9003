"""Python source of the class hierarchies and programs PyObj.tla generates."""
import os
import tempfile

import vlib

PRE = 'from nagini_contracts.contracts import *\nfrom typing import Optional\n'
SPEC = ['        Requires(Acc(self.f))', '        Ensures(Acc(self.f))']


def body(p, c, m, b):
    k = 'K%d_%%d' % p['id']
    fin = 'return ((%%s * 7 + %d) %%%% 997 * 7 + (x * 3 + y)) %%%% 997' % b['k']
    o = b['o']
    if o == 'const':
        return [fin % c]
    if o == 'other':
        return ['v = self.m%d(x + 1)' % b['m'], fin % 'v']
    if o == 'sup':
        return ['v = super().m%d(x, y + 1)' % m, fin % 'v']
    if o == 'fld':
        return ['self.f = (self.f * 7 + (%d + x)) %% 997' % b['k'], fin % 'self.f']
    test = 'isinstance(self, %s)' if o == 'isi' else 'type(self) == %s'
    a, z = (1, 2) if o == 'isi' else (3, 4)
    return ['v = %d' % z, 'if %s:' % (test % (k % b['c'])), '    v = %d' % a, fin % 'v']


def init(b):
    k = b['k']
    return {'set': ['self.f = (v * 7 + %d) %% 997' % k],
            'sup': ['super().__init__(v + %d)' % k],
            'both': ['super().__init__(v)', 'self.f = (self.f * 7 + %d) %% 997' % k],
            'call': ['self.f = (v * 7 + %d) %% 997' % k, 'self.m3(v)']}[b['o']]


def source(p):
    h, i = p['h'], p['id']
    out = []
    for c in range(1, len(h['par']) + 1):
        par = h['par'][c - 1]
        out += ['', '', 'class K%d_%d%s:' % (i, c, '(K%d_%d)' % (i, par) if par else '')]
        n = len(out)
        b = h['init'][c - 1]
        if b['o'] != 'none':
            out += ['    def __init__(self, v: int) -> None:', '        Ensures(Acc(self.f))  # type: ignore']
            out += ['        ' + l for l in init(b)] + ['']
        for m, b in enumerate(h['def'][c - 1], 1):
            if b['o'] != 'none':
                out += ['    def m%d(self, x: int, y: int = %d) -> int:' % (m, h['dflt'][m - 1])] + SPEC
                out += ['        ' + l for l in body(p, c, m, b)] + ['']
        if len(out) == n:
            out += ['    pass', '']
    out += ['', 'def f_%d(n: int) -> int:' % i, '    o = K%d_1(n)' % i]
    kw = 'if'
    for n, c in enumerate(p['cls']):
        out += ['    %s n == %d:' % (kw, n), '        o = K%d_%d(n)' % (i, c)]
        kw = 'elif'
    out += ['    t = 0']
    for s in p['calls']:
        x, y = 'n + %d' % s['x'], str(s['y'])
        a = {'one': x, 'kw1': 'x=' + x, 'two': x + ', ' + y, 'kw2': '%s, y=%s' % (x, y), 'rev': 'y=%s, x=%s' % (y, x)}[s['form']]
        call = 'K%d_%d.m%d(o, %s)' % (i, s['direct'], s['m'], a) if s['direct'] else 'o.m%d(%s)' % (s['m'], a)
        out += ['    r = ' + call, '    t = (t * 7 + r) % 997']
    out += ['    return t * 1000 + o.f']
    return '\n'.join(out)


def generate(work, lo, hi):
    wd = tempfile.mkdtemp(dir=work)
    vlib.copy_specs(wd, 'PyObj.tla', 'PyObj.cfg')
    r = vlib.tlc('PyObj', 'PyObj.cfg', wd, stack='64m', timeout=300, env=dict(OBJ_LO=str(lo), OBJ_HI=str(hi)))
    ps = r.prints('OUT')
    if len(ps) != hi - lo + 1:
        raise vlib.TLCError('PyObj generated %d programs of %d\n%s' % (len(ps), hi - lo + 1, r.out[-2000:]))
    return ps, r


def files(work, ps, per=6):
    out = []
    for k in range(0, len(ps), per):
        chunk = ps[k:k + per]
        path = os.path.join(work, 'obj_%d.py' % chunk[0]['id'])
        with open(path, 'w') as f:
            f.write(PRE + '\n'.join(source(p) for p in chunk) + '\n')
        out.append((path, [('f_%d' % p['id'], [n], ['ret', ['int', e]]) for p in chunk for n, e in enumerate(p['exp'])]))
    return out
