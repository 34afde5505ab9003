"""T07: the contracts of the built-in operations (resources/*.sil) against CPython.

Every operation is applied in CPython to small operands; Contracts.tla evaluates the contract, as parsed
by the code under test, on the recorded application.  The programs of progs/T07 go through the whole
translation (exec_conf): they settle that an operation in a program reaches the right contract.
"""
import copy
import itertools
import json
import os
import random
import shutil
import tempfile

import nag
import vlib

QLO, QHI = -2, 9          # as in Silver.tla
INTS = [-9, -8, -7, -2, -1, 0, 1, 2, 3, 5, 7, 8, 100]


class Seq(tuple):            # PSeq
    pass


class PSet(frozenset):
    pass


class Bag(tuple):            # PMultiset
    pass


class BSeq(tuple):           # PByteSeq
    pass


class Iter:
    """the iterator of a for loop: what it still has to yield is kept with it."""
    def __init__(self, xs, index=0, previous=(), container=None):
        self.xs, self.index, self.previous, self.container = xs, index, list(previous), container

    def step(self):
        if self.index < len(self.xs):
            self.index += 1
            self.previous = self.xs[:self.index - 1]
            return self.xs[self.index - 1], None
        self.previous = list(self.xs)
        return (self.xs[-1] if self.xs else None), StopIteration()


class Raw:
    """a value passed as it is."""
    def __init__(self, v):
        self.v = v


ANY = Raw(['u'])


def ty(name, *args):
    return ['ty', name, list(args)]


def join(ts):
    ts = [t for t in ts if t is not None]
    if not ts:
        return None
    names = [t for i, t in enumerate(ts) if t not in ts[:i]]
    if len(names) == 1:
        return names[0]
    if all(t in (ty('int'), ty('bool')) for t in names):
        return ty('int')
    return ty('object')


class Enc:
    """encodes the values of one case."""
    def __init__(self, fallback):
        self.ids, self.types, self.facts, self.keep, self.obj, self.pyval = {}, [], [], [], [], {}
        self.fallback = fallback

    def ptype(self, v):
        if v is None:
            return ty('NoneType')
        if isinstance(v, bool):
            return ty('bool')
        if isinstance(v, int):
            return ty('int')
        if isinstance(v, str):
            return ty('str')
        if isinstance(v, bytes):
            return ty('bytes')
        if isinstance(v, bytearray):
            return ty('bytearray')
        if isinstance(v, range):
            return ty('range_0')
        if isinstance(v, slice):
            return ty('slice')
        if isinstance(v, float):
            return ty('float')
        if isinstance(v, BSeq):
            return ty('PByteSeq')
        if isinstance(v, (Seq, PSet, Bag)):
            return ty({Seq: 'PSeq', PSet: 'PSet', Bag: 'PMultiset'}[type(v)], self.elem(v))
        if isinstance(v, tuple):
            return ty('tuple', ['s', [self.ptype(x) for x in v]])
        if isinstance(v, list):
            return ty('list', self.elem(v))
        if isinstance(v, (set, frozenset)):
            return ty('set', self.elem(v))
        if isinstance(v, dict):
            return ty('dict', self.elem(v.keys()), self.elem(v.values()))
        if isinstance(v, Iter):
            return ty('Iterator', self.elem(v.xs))
        if isinstance(v, BaseException):
            return ty('Exception')
        return ty('object')

    def elem(self, xs):
        return join([self.ptype(x) for x in xs]) or self.fallback

    def new(self, v, typ):
        self.types.append(typ)
        self.keep.append(v)
        return ['o', len(self.types)]

    def ref(self, v):
        if isinstance(v, Raw):
            return v.v
        if v is None:
            return ['null']
        if isinstance(v, bool):
            return ['bb', v]
        if isinstance(v, int):
            return ['bi', v]
        if isinstance(v, str):
            cs = ['s', [['i', ord(c)] for c in v]]
            return self.known(v, ['t', 'str___create__', [['i', len(v)], cs]])
        if isinstance(v, Seq):
            return self.known(v, ['t', 'PSeq___create__', [['s', [self.ref(x) for x in v]], self.elem(v)]])
        if isinstance(v, PSet):
            return self.known(v, ['t', 'PSet___create__', [['S', [self.ref(x) for x in sorted(v)]], self.elem(v)]])
        if isinstance(v, Bag):
            return self.known(v, ['t', 'PMultiset___create__', [['M', [self.ref(x) for x in v]], self.elem(v)]])
        if isinstance(v, BSeq):
            return self.known(v, ['t', 'PByteSeq___create__', [['s', [['i', x] for x in v]]]])
        if isinstance(v, (bytes, range, slice, tuple)):
            k = (type(v).__name__, repr(v))
            if k not in self.ids:
                self.ids[k] = o = self.new(v, self.ptype(v))
                self.known(v, o)
                if isinstance(v, bytes):
                    self.facts.append(['bytes___val__', [o], ['s', [['bi', x] for x in v]]])
                elif isinstance(v, range):
                    self.facts += [['range___val__', [o], ['s', [['i', x] for x in v]]],
                                   ['range___start__', [o], ['i', v.start]], ['range___stop__', [o], ['i', v.stop]]]
                elif isinstance(v, slice):
                    self.facts += [['slice___internal_start__', [o], self.ref(v.start)],
                                   ['slice___internal_stop__', [o], self.ref(v.stop)]]
                else:
                    self.facts.append(['tuple___val__', [o], ['s', [self.ref(x) for x in v]]])
            return self.ids[k]
        k = id(v)
        if k not in self.ids:
            self.ids[k] = self.new(v, self.ptype(v))
            self.known(v, self.ids[k])
            self.obj.append(v)
            for x in self.parts(v):
                self.ref(x)
        return self.ids[k]

    def known(self, v, r):
        self.pyval[json.dumps(r)] = (v, r)
        return r

    def parts(self, v):
        return list(v) + list(v.values()) if isinstance(v, dict) else \
            list(v) if isinstance(v, (list, set)) else \
            list(v.xs) + list(v.previous) + [v.container] if isinstance(v, Iter) else []

    def heap(self):
        h = []
        for v in list(self.obj):
            for x in self.parts(v):
                self.ref(x)
        for v in self.obj:
            i = self.ids[id(v)][1]
            if isinstance(v, list):
                h.append([i, 'list_acc', ['s', [self.ref(x) for x in v]]])
            elif isinstance(v, set):
                h.append([i, 'set_acc', ['S', [self.ref(x) for x in v]]])
            elif isinstance(v, dict):
                h.append([i, 'dict_acc', ['m', [[self.ref(a), self.ref(b)] for a, b in v.items()]]])
            elif isinstance(v, bytearray):
                h.append([i, 'bytearray_acc', ['s', [['i', x] for x in v]]])
            elif isinstance(v, Iter):
                h += [[i, 'list_acc', ['s', [self.ref(x) for x in v.xs]]], [i, '__iter_index', ['i', v.index]],
                      [i, '__previous', ['s', [self.ref(x) for x in v.previous]]], [i, '__container', self.ref(v.container)]]
        return h

    def val(self, v, typ):
        if isinstance(v, Raw):
            return v.v
        if typ == 'Int':
            return ['i', int(v)]
        if typ == 'Bool':
            return ['b', bool(v)]
        if typ.startswith('Seq') and 'Int' in typ:
            return ['s', [['i', x] for x in v]]
        if typ.startswith('Seq'):
            return ['s', [self.ref(x) for x in v]]
        if typ.startswith('Set'):
            return ['S', [self.ref(x) for x in v]]
        if typ.startswith('Multiset'):
            return ['M', [self.ref(x) for x in v]]
        if 'PyType' in typ:
            return v
        return self.ref(v)

    def equalities(self):
        """what == says about the values of the case that the specification does not know the contents of."""
        vs = [x for x in self.pyval.values()] + [(x, self.ref(x)) for x in (0, 1, None, True)]
        return [['object___eq__', [r, q], ['b', bool(v == w)]] for v, r in vs for w, q in vs
                if not (r == q) and 'bi' not in (r[0], q[0]) and not isinstance(v, (float, Iter, BaseException))
                and not isinstance(w, (float, Iter, BaseException))]


# ------------------------------------------------------------------ operations
OPS = {}


def op(name, fn, cases, known=()):
    OPS.setdefault(name, []).append((fn, list(cases), list(known)))


def pairs(xs, ys=None):
    return [(a, b) for a in xs for b in (xs if ys is None else ys)]


def items(o):
    return o[0]


class Undefined(Exception):
    """the operation is not defined there: a contract that allows it says too much."""


def need(c):
    if not c:
        raise Undefined()


def define():
    I, B = INTS + (list(range(-12, 13)) + [-99, 64, 63, 17] if vlib.THOROUGH else []), [True, False]
    I = list(dict.fromkeys(I))
    IB = I + B
    for n, f in {'__add__': lambda a, b: a + b, '__sub__': lambda a, b: a - b, '__mul__': lambda a, b: a * b,
                 '__floordiv__': lambda a, b: a // b, '__mod__': lambda a, b: a % b, '__truediv__': lambda a, b: a / b}.items():
        op('int_' + n, f, pairs(I) if n != '__truediv__' else [(7, 2), (-1, 2), (1, 0), (0, 0), (9, -2)],
           [(4, 2), (0, 3)] if n == '__truediv__' else ())
    small = [-3, -2, -1, 0, 1, 2, 3, 4]
    op('int___pow__', lambda a, b: a ** b if b >= 0 else need(False), pairs(small))
    op('int___pow_unrolled__', lambda a, b: a ** b if b >= 0 else need(False), pairs(small))
    for n, f in {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
                 'eq': lambda a, b: a == b}.items():
        op('int___%s__' % n, f, pairs([-3, -1, 0, 1, 2, 3, True, False]))
    op('bool___eq__', lambda a, b: a == b, pairs(B))
    for n, f in {'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b}.items():
        bits = [0, 1, 2, 3, 5, 8, 12, 127, 128, 200, 255, 256, 300, True, False, -1, -2, -3, -128, -200, -255, -256, -257]
        if vlib.THOROUGH:
            bits += list(range(-259, 260, 13)) + [4095, 4096, -4096, -4097, 1024, -1025]
        op('int___%s__' % n, f, pairs(bits))
        op('int___r%s__' % n, lambda a, b, f=f: f(b, a), pairs([0, 3, 5, 255, True, -1, -7]))
        op('bool___%s__' % n, f, pairs(B))
    sh = [(a, b) for a in (-9, -2, -1, 0, 1, 3, 200, 255, True) for b in (-1, 0, 1, 2, 3, 7, 8, 9, 16, 20)] + \
        [(0, 65), (0, 200), (-1, 65), (-5, 100), (1, 70), (255, 64), (-256, 255), (1, 300), (5, 66), (False, 80)]
    for n, f in {'lshift': lambda a, b: a << b, 'rshift': lambda a, b: a >> b}.items():
        for p in ('int___%s__', '__prim__int___%s__'):
            op(p % n, f, sh)
            op(p % ('r' + n), lambda a, b, f=f: f(a, b), sh[::3])
    op('int_bit_length', lambda a: int(a).bit_length(), [(x,) for x in I + [True, 127, 128, 255, 256, 65535, 65536, 2 ** 24, -2 ** 20]])
    op('__int_bit_length8', lambda a: a.bit_length(), [(x,) for x in (0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255)])
    op('__int_bit_length32', lambda a: a.bit_length(), [(2 ** k + d,) for k in range(1, 30) for d in (-1, 0)])
    op('__shift_factor8', lambda a: 2 ** a, [(x,) for x in range(9)])
    op('__shift_factor32', lambda a: 2 ** a, [(x,) for x in range(30)])
    op('int___bool__', bool, [(x,) for x in IB + [None]])
    op('bool___bool__', bool, [(x,) for x in B + [None]])
    op('NoneType___bool__', bool, [(None,)])
    op('object___bool__', bool, [(x,) for x in IB + [None, 'a', '', (), (1,), (1, 'a'), b'', b'x', [], [1], {1}, set(), {}, {1: 2},
                                                     range(0, 0), range(1, 3), bytearray(b''), bytearray(b'a'), object()]])
    op('int___pos__', lambda a: +a, [(x,) for x in IB])
    op('int___neg__', lambda a: -a, [(x,) for x in IB])
    op('int___invert__', lambda a: ~int(a), [(x,) for x in IB])
    op('int___int__', int, [(x,) for x in IB])
    op('int___byte_bounds__', lambda a: 0 <= a < 256, [(x,) for x in (-1, 0, 255, 256, 300)])
    op('abs', abs, [(x,) for x in I])
    for n, f in (('max', max), ('min', min)):
        op(n, lambda a, b, f=f: f(a, b) if b is not None else f(a), pairs([-2, 0, 1, 3, True, False]) +
           [([1], None), ([], None), ([3, 1, 2], None), ([-1, -5, -1], None)], [([True], None), ([False, False], None)])
    op('sum', sum, [([],), ([1],), ([1, 2, 3],), ([-1, 5, 5],), ([True, 2],)])
    op('sorted', sorted, [([],), ([1],), ([3, 1, 2],), ([2, 2, 1],), ([5, -1, 5, 0],), ([True, False, 2],)])
    op('hash', hash, [(1,), ('a',), (None,), ((1, 2),), (True,), (b'a',)], [([1],), ({1: 2},), ({1},), (bytearray(b''),)])
    op('__seq_ref_to_seq_int', lambda s: [int(x) for x in s], [([],), ([1],), ([1, 2, 3],), ([5, 5],), ([7, -1],)], [([True],)])
    op('object___cast__', lambda t, o: o, [(ty('int'), 1), (ty('object'), 'a'), (ty('bool'), True), (ty('int'), True)])
    op('Place___eq__', lambda a, b: a is b, [])
    # strings
    S = ['', 'a', 'b', 'ab', 'ba', 'aab']
    op('str___len__', len, [(s,) for s in S])
    op('str___val__', lambda s: [ord(c) for c in s], [(s,) for s in S])
    op('str___create__', lambda n, cs: ''.join(map(chr, cs)), [(len(s), [ord(c) for c in s]) for s in S])
    op('str___bool__', bool, [(s,) for s in S + [None]])
    op('str___eq__', lambda a, b: a == b, pairs(S, S + [1, None]))
    op('str___add__', lambda a, b: a + b, pairs(S))
    op('str_join', lambda s, xs: s.join(xs), [('', []), (',', ['a', 'b']), ('x', ['a'])])
    op('str___mod__', lambda a, b: a % b, [('%s', 'a'), ('%d', 1), ('x', ())], [('%s %s', 'a')])
    op('str_format', lambda s, a, k: s.format(*a, **k), [('{}', (1,), {}), ('x', (), {}), ('{a}', (), {'a': 1})], [('{} {}', (1,), {})])
    op('str___format__', lambda s, f: format(s, f), [('a', ''), ('a', '5')], [('a', 'd')])
    op('str_split', str.split, [('a b',), ('',), ('ab',), (' a  b ',)])
    # bytes
    Y = [b'', b'a', b'ab', b'ba', b'\x00\xff']
    op('bytes___len__', len, [(s,) for s in Y])
    op('bytes___val__', list, [(s,) for s in Y])
    op('bytes___create__', lambda v, c: bytes(v), [(list(s), 1) for s in Y])
    op('bytes___bool__', bool, [(s,) for s in Y + [None]])
    op('bytes___eq__', lambda a, b: a == b, pairs(Y))
    op('bytes___sil_seq__', list, [(s,) for s in Y])
    op('bytes___add__', lambda a, b: a + b, pairs(Y))
    op('bytes___mul__', lambda a, b: a * b, pairs(Y, [-1, 0, 1, 2, 3]))
    op('bytes___mul__helper', lambda a, n: list(a) * n, [(list(y), n) for y in Y for n in (0, 1, 2, 3)])
    op('bytes_join', lambda s, xs: s.join(xs), [(b'', []), (b',', [b'a', b'b', b'cd']), (b'x', [b'a']), (b'', [b'a', b'', b'b']), (b'--', [])])
    op('bytes___getitem__', lambda s, i: s[i], pairs(Y, range(-4, 5)))
    SL = [slice(a, b) for a in (None, -5, -2, -1, 0, 1, 2, 5) for b in (None, -5, -2, -1, 0, 1, 2, 5)]
    op('bytes___getitem_slice__', lambda s, i: s[i], pairs([b'', b'a', b'abc'], SL))
    # lists
    L = [[], [1], [1, 2], [3, 1, 3], [2, 2, 5, 7]]
    LS = [[], ['a'], ['b', 'a', 'b'], ['', 'x']]
    nested = [([[1]], [1]), ([True, 2], 1), ([1, 2], True)]
    op('list___init__', lambda: [], [()])
    op('list___contains__', lambda s, x: x in s, pairs(L, [0, 1, 3]) + pairs(LS, ['a', 'x', '']), nested)
    op('list___bool__', bool, [(s,) for s in L + LS + [None]])
    op('list___len__', len, [(s,) for s in L + LS])
    op('list___sil_seq__', list, [(s,) for s in L + LS])
    op('list___getitem__', lambda s, i: s[i], pairs(L + LS, list(range(-5, 5)) + [True]))
    op('list___getitem_slice__', lambda s, i: s[i], pairs(L[:4], SL))

    def setitem(s, i, x):
        s[i] = x
    op('list___setitem__', setitem, [(s, i, 9) for s in L for i in range(-3, 5)] + [(['a', 'b'], 1, 'c')])
    op('list_insert', lambda s, i, x: s.insert(i, x), [(s, i, 9) for s in L[:4] for i in range(-4, 5)])
    op('list_append', lambda s, x: s.append(x), pairs(L, [4]) + pairs(LS, ['q']))
    op('list_extend', lambda s, x: s.extend(x), pairs(L) + pairs(LS))
    op('list___add__', lambda s, x: s + x, pairs(L) + pairs(LS))
    op('list___mul__', lambda s, n: s * n, pairs(L[:4] + LS[:3], [-1, 0, 1, 2, 3]))
    op('list_reverse', lambda s: s.reverse(), [(s,) for s in L + LS])
    op('list_copy', lambda s: s.copy(), [(s,) for s in L + LS])
    op('list_remove', lambda s, x: s.remove(x), pairs(L, [0, 1, 2, 3]) + pairs(LS, ['a', 'b']), [([True, 1], 1)])
    op('list_index', lambda s, x: s.index(x), pairs(L, [0, 1, 2, 3]) + pairs(LS, ['a', 'b']), [([True, 1], 1)])
    op('list___eq__', lambda a, b: a == b, pairs(L) + pairs(LS) + [([[1], [2]], [[1], [2]]), ([[1]], [[2]]), ([True], [1])])
    op('list___iter__', lambda s: Iter(list(s), container=s), [(s,) for s in L + LS])
    # sets and dicts
    T = [set(), {1}, {1, 2}, {3, 5, 7}]
    op('set___init__', lambda: set(), [()])
    op('set___len__', len, [(s,) for s in T])
    op('set___contains__', lambda s, x: x in s, pairs(T, [0, 1, 5]) + [({'a', 'b'}, 'a'), ({'a'}, 'c')], [({1}, True)])
    op('set___bool__', bool, [(s,) for s in T + [None]])
    op('set___iter__', lambda s: Iter(list(s), container=s), [(s,) for s in T])
    op('set_add', lambda s, x: s.add(x), pairs(T, [0, 1, 5]) + [({'a'}, 'b')], [({1}, True)])
    op('set_remove', lambda s, x: s.remove(x), pairs(T, [0, 1, 5]))
    op('set_clear', lambda s: s.clear(), [(s,) for s in T])
    op('set___sil_seq__', list, [(s,) for s in T])
    D = [{}, {1: 10}, {1: 10, 2: 20}, {3: 'a', 5: 'b', 7: 'a'}]
    op('dict___init__', lambda: {}, [()])
    op('dict___contains__', lambda s, x: x in s, pairs(D, [0, 1, 5]), [({1: 10}, True)])
    op('dict___iter__', lambda s: Iter(list(s), container=s), [(s,) for s in D])
    op('dict___bool__', bool, [(s,) for s in D + [None]])
    op('dict_keys', lambda s: set(s.keys()), [(s,) for s in D])
    op('dict___getitem__', lambda s, x: s[x], pairs(D, [0, 1, 5]))
    op('dict_get', lambda s, x: s.get(x), pairs(D, [0, 1, 5]), [({1: 10}, True)])
    op('dict___setitem__', setitem, [(d, k, 30) for d in D[:3] for k in (0, 1, 2)] + [({1: 'a'}, 1, 'b')], [({1: 10}, True, 5)])
    op('dict_values', lambda s: list(s.values()), [(s,) for s in D])
    op('dict___len__', len, [(s,) for s in D])
    op('dict___sil_seq__', list, [(s,) for s in D])
    # tuples
    TU = [(), (1,), (1, 2), ('a', 2), (1, 2, 3), (3, 'x', None)]
    for n in range(10):
        op('tuple___create%d__' % n, lambda *a, n=n: tuple(a[:n]),
           [tuple(v) + tuple(ty('object') if o else t(x) for x in v) + ((1,) if n else ())
            for v in (list(range(n)), ['a', None, True, 3, 'b', 5, (1,), 7, 'c'][:n]) for o in (True, False)
            for t in (lambda x: Enc(ty('int')).ptype(x),)])
    op('tuple___val__', list, [(t,) for t in TU])
    op('tuple___sil_seq__', list, [(t,) for t in TU])
    op('tuple___len__', len, [(t,) for t in TU])
    op('tuple___getitem__', lambda s, i: s[i], pairs(TU, range(-4, 4)))
    op('tuple___getitem_slice__', lambda s, i: s[i], pairs(TU, SL))
    op('tuple___contains__', lambda s, x: x in s, pairs(TU, [1, 'a', None, 3]), [((1, 2), True), (([1],), [1])])
    op('tuple___eq__', lambda a, b: a == b, pairs(TU) + [((1, (2, 3)), (1, (2, 3))), ((1, True), (1, 1)), ((1, 0), (1, 2))])
    # ranges
    R = [range(0, 0), range(0, 3), range(2, 5), range(-2, 1), range(4, 5)]
    op('range___create__', lambda a, b, c: range(a, b), [(a, b, 1) for a in (-2, 0, 3) for b in (-3, -2, 0, 3, 6)])
    op('range___create_step__', lambda a, b, s, c: range(a, b, s), [(a, b, s, 1) for a in (-2, 0, 3) for b in (-3, 0, 3, 7) for s in (-1, 0, 1, 2, 3)])
    for n, f in {'__val__': list, '__start__': lambda r: r.start, '__stop__': lambda r: r.stop, '__len__': len, '__sil_seq__': list,
                 '__bool__': bool}.items():
        op('range_' + n, f, [(r,) for r in R + ([None] if n == '__bool__' else [])])
    op('range___getitem__', lambda s, i: s[i], pairs(R, range(-4, 4)))
    op('range___getitem_slice__', lambda s, i: s[i], pairs(R[:3], SL))
    op('range___eq__', lambda a, b: a == b, pairs(R))
    op('range___contains__', lambda a, b: b in a, pairs(R, [-2, 0, 1, 2, 4, True, False]))
    op('range___iter__', lambda s: Iter(list(s), container=s), [(s,) for s in R])
    # slices
    op('slice___create__', lambda a, b: slice(a, b), pairs([None, -1, 0, 2]))
    op('slice___internal_start__', lambda s: s.start, [(s,) for s in SL])
    op('slice___internal_stop__', lambda s: s.stop, [(s,) for s in SL])
    # bytearrays
    A = [bytearray(x) for x in (b'', b'a', b'ab', b'aba', b'\x00\xff')]
    op('bytearray___init__', lambda: bytearray(), [()])
    op('bytearray___initFromInt__', lambda n: bytearray(n), [(n,) for n in (-1, 0, 1, 3, True)])
    op('bytearray___initFromBytearray__', lambda b: bytearray(b), [(a,) for a in A])
    op('bytearray___initFromList__', lambda b: bytearray(b), [([],), ([1],), ([255, 0, 3],), ([256],), ([1, -1],)])
    op('bytearray_hex', lambda b: b.hex(), [(a,) for a in A])
    op('bytearray___len__', len, [(a,) for a in A])
    op('bytearray___contains__', lambda s, x: x in s, pairs(A, [0, 97, 98, 255, True]) + [(bytearray(b'a'), 256), (bytearray(b'a'), -1)])
    op('bytearray___bool__', bool, [(a,) for a in A + [None]])
    op('bytearray___eq__', lambda a, b: a == b, pairs(A))
    op('bytearray___getitem__', lambda s, i: s[i], pairs(A, range(-4, 4)))
    op('bytearray___getitem_slice__', lambda s, i: s[i], pairs(A[:4], SL))
    op('bytearray___setitem__', setitem, [(a, i, x) for a in A for i in (-1, 0, 1, 3) for x in (0, 5, 255, 256, -1)])
    op('bytearray_append', lambda s, x: s.append(x), pairs(A, [0, 255, 256, -1, True]))
    op('bytearray_extend', lambda s, x: s.extend(x), pairs(A))
    op('bytearray_reverse', lambda s: s.reverse(), [(a,) for a in A])
    op('bytearray___iter__', lambda s: Iter(list(s), container=s), [(a,) for a in A])
    op('bytearray___sil_seq__', list, [(a,) for a in A])
    # iterators
    def nxt(it):
        return it.step()
    its = []
    for xs in L + LS:
        for k in range(len(xs) + 2):
            it = Iter(list(xs))
            for _ in range(k):
                it.step()
            its.append((it,))
    op('Iterator___next__', nxt, its)
    # mathematical sequences, sets and multisets (documented in nagini_contracts.contracts)
    Q = [Seq(), Seq((1,)), Seq((1, 2)), Seq((3, 1, 3))]

    def idx(s, i):
        need(-len(s) <= i < len(s))
        return s[i]

    def upd(s, i, x):
        need(0 <= i < len(s))
        return type(s)(s[:i] + (x,) + s[i + 1:])
    op('PSeq___create__', lambda v, t: Seq(v), [(list(s), ty('int')) for s in Q])
    op('PSeq___sil_seq__', list, [(s,) for s in Q])
    op('PSeq___contains__', lambda s, x: x in s, pairs(Q, [0, 1, 3]))
    op('PSeq___getitem__', idx, pairs(Q, range(-4, 4)))
    op('PSeq___len__', len, [(s,) for s in Q])
    op('PSeq_take', lambda s, n: Seq(s[:max(n, 0)]), pairs(Q, [-1, 0, 1, 2, 3, 5]))
    op('PSeq_drop', lambda s, n: Seq(s[max(n, 0):]), pairs(Q, [-1, 0, 1, 2, 3, 5]))
    op('PSeq_update', upd, [(s, i, 9) for s in Q for i in range(-2, 4)])
    op('PSeq___add__', lambda a, b: Seq(tuple(a) + tuple(b)), pairs(Q))
    op('PSeq___eq__', lambda a, b: tuple(a) == tuple(b), pairs(Q))
    W = [BSeq(), BSeq((1,)), BSeq((255, 0)), BSeq((1, 2, 1))]

    def bupd(s, i, x):
        need(0 <= i < len(s) and 0 <= x < 256)
        return type(s)(s[:i] + (x,) + s[i + 1:])

    def bnew(v):
        need(all(0 <= x < 256 for x in v))
        return BSeq(v)
    op('PByteSeq___create__', bnew, [(list(s),) for s in W] + [([256],), ([-1, 2],)])
    op('PByteSeq___from_bytes__', lambda v: BSeq(v), [(list(s),) for s in W])
    op('PByteSeq___val__', list, [(s,) for s in W])
    op('PByteSeq___len__', len, [(s,) for s in W])
    op('PByteSeq___contains__', lambda s, x: x in s, pairs(W, [0, 1, 3]))
    op('PByteSeq___getitem__', idx, pairs(W, range(-4, 4)))
    op('PByteSeq_take', lambda s, n: BSeq(s[:max(n, 0)]), pairs(W, [-1, 0, 1, 2, 3, 5]))
    op('PByteSeq_drop', lambda s, n: BSeq(s[max(n, 0):]), pairs(W, [-1, 0, 1, 2, 3, 5]))
    op('PByteSeq_update', bupd, [(s, i, x) for s in W for i in range(-2, 4) for x in (0, 9, 255, 256, -1)])
    op('PByteSeq___add__', lambda a, b: BSeq(tuple(a) + tuple(b)), pairs(W))
    op('PByteSeq___eq__', lambda a, b: tuple(a) == tuple(b), pairs(W))
    op('PByteSeq___sil_seq__', list, [(s,) for s in W])
    P = [PSet(), PSet({1}), PSet({1, 2}), PSet({2, 3, 5})]
    op('PSet___create__', lambda v, t: PSet(v), [(list(s), ty('int')) for s in P])
    op('PSet___unbox__', list, [(s,) for s in P])
    op('PSet___contains__', lambda s, x: x in s, pairs(P, [0, 1, 3]))
    op('PSet___sil_seq__', list, [(s,) for s in P])
    op('PSet___len__', len, [(s,) for s in P])
    op('PSet___add__', lambda a, b: PSet(a | b), pairs(P))
    op('PSet___sub__', lambda a, b: PSet(a - b), pairs(P))
    op('PSet___eq__', lambda a, b: frozenset(a) == frozenset(b), pairs(P))
    from collections import Counter
    M = [Bag(), Bag((1,)), Bag((1, 1)), Bag((1, 2, 2))]

    def bag(c):
        return Bag(sorted(c.elements()))
    op('PMultiset___create__', lambda v, t: Bag(v), [(list(s), ty('int')) for s in M])
    op('PMultiset___unbox__', list, [(s,) for s in M])
    op('PMultiset_num', lambda s, x: s.count(x), pairs(M, [0, 1, 2]))
    op('PMultiset___sil_seq__', list, [(s,) for s in M])
    op('PMultiset___len__', len, [(s,) for s in M])
    op('PMultiset___add__', lambda a, b: bag(Counter(a) + Counter(b)), pairs(M))
    op('PMultiset___sub__', lambda a, b: bag(Counter(a) - Counter(b)), pairs(M))
    op('PMultiset___eq__', lambda a, b: Counter(a) == Counter(b), pairs(M))


def fallback(name, args):
    e = Enc(None)
    ts = []
    named = [a for a in args if isinstance(a, list) and len(a) == 3 and a[0] == 'ty']
    if name in ('str_split', 'PSeq___create__', 'PSet___create__', 'PMultiset___create__'):
        return (named or [ty('str')])[0]

    def go(v):
        if isinstance(v, (list, set, frozenset, Seq, PSet, Bag)):
            ts.extend(e.ptype(x) for x in v)
        if isinstance(v, dict):
            ts.extend(e.ptype(x) for x in v)
    for a in args:
        go(a)
    ts2 = ts or [e.ptype(a) for a in args[1:] if isinstance(a, (int, str, bytes))]
    return join(ts2) or ty('int')


def ints(v):
    """the integers of a case beyond those quantifiers range over anyway."""
    out = set()

    def go(v):
        if isinstance(v, (list, tuple)):
            if len(v) == 2 and v[0] in ('i', 'bi') and isinstance(v[1], int):
                out.add(v[1])
            else:
                for x in v:
                    go(x)
    go(v)
    return [[k, n] for n in sorted(out) if not QLO <= n <= QHI for k in ('i', 'bi')]


def make(d, name, fn, args, bv):
    """one case: the operation applied in CPython."""
    kind = 'fun' if name in d['funcs'] else 'meth'
    f = d['funcs'].get(name) or d['meths'].get(name)
    key = '%s%s(%s)' % (name, '' if bv == 8 else '@%d' % bv, ', '.join('<%s>' % ' '.join(map(str, a.xs)) + str(a.index) if isinstance(a, Iter)
                                      else 'object()' if type(a) is object else repr(a) for a in args))
    args = copy.deepcopy(list(args))
    e = Enc(fallback(name, args))
    if len(args) != len(f['args']):
        return None
    av = [e.val(a, t) for a, t in zip(args, f['argt'])]
    h0 = e.heap()
    n0 = len(e.types)
    raised, r = '', None
    try:
        r = fn(*args)
    except Exception as x:     # noqa
        raised = type(x).__name__
    rets = [f['ret']] if kind == 'fun' else f['rett']
    rs = r if name == 'Iterator___next__' and not raised else (r,) if rets else ()
    if not raised and any(isinstance(x, int) and abs(x) > 2 ** 30 for x in rs):
        return None
    res = [['u']] * len(rets) if raised else [e.val(x, t) for x, t in zip(rs, rets)]
    h1 = e.heap()
    return dict(key=key, name=name, kind=kind, args=av, h0=h0, h1=h1, n0=n0, types=e.types, facts=e.facts + e.equalities(),
                terms=[v for k, (x, v) in e.pyval.items() if v[0] == 't'] + ints([av, h0, h1, res, e.facts]), raised=bool(raised), exc=raised, res=res, bv=bv)


def resources(bv=8):
    """the contracts as the code under test loads them, with the class hierarchy of a translated program."""
    import ir
    from nagini_translation import main as M
    wd = tempfile.mkdtemp()
    try:
        p = os.path.join(wd, 'p.py')
        open(p, 'w').write('def f(x: int) -> int:\n    return x\n')
        t = ir.serialize(nag.translate(p)[1], p)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    d = ir.serialize_contracts(M.load_sil_files(nag.the_jvm(), bv))
    d['ext'] = t['ext']
    d['doms'] = dict(t['doms'], **d['doms'])
    return d


def build(job):
    bv = job
    d = resources(bv)
    cases = []
    if not OPS:
        define()
    missing = []
    for name, entries in OPS.items():
        if name not in d['funcs'] and name not in d['meths']:
            missing.append(name)
            continue
        for fn, cs, known in entries:
            for a in cs + (known if bv == 8 else []):
                try:
                    c = make(d, name, fn, tuple(a), bv)
                except (TypeError, ValueError, AttributeError) as x:
                    raise RuntimeError('%s%r: %s' % (name, a, x)) from x
                if c:
                    cases.append(c)
    return d, cases, missing


def crash(out):
    i = out.find('Error: ')
    return out[i:i + 500]


def run(check):
    contracts(check, 8)
    if vlib.THOROUGH:
        contracts(check, 12)
    from checks import exec_conf
    exec_conf.run(check, 'T07')


def contracts(check, bv):
    r = nag.pmap(build, [bv], procs=1, init=lambda: nag.setup(tempfile.mkdtemp(dir=check.work)))[0]
    if nag.is_exc(r):
        raise RuntimeError(r[1])
    d, cases, missing = r
    check.add(operations=len({c['name'] for c in cases}), applications=len(cases), missing_operations=len(missing))
    n = 8
    parts = [cases[i::n] for i in range(n)]

    def tlc(part):
        wd = tempfile.mkdtemp(dir=check.work)
        json.dump(dict(progs=[d], cases=[dict({k: v for k, v in c.items() if k not in ('key', 'exc', 'n0')}, prog=1) for c in part]),
                  open(os.path.join(wd, 'in.json'), 'w'))
        vlib.copy_specs(wd, 'Silver.tla', 'Contracts.tla', 'Contracts.cfg')
        r = vlib.tlc('Contracts', 'Contracts.cfg', wd, workers=1, heap='3g', stack='256m',
                     env={'SILVER_INPUT': os.path.join(wd, 'in.json')}, partial=True, timeout=500)
        return {o['case'] - 1: o['r'] for o in r.prints('OUT')}, r
    from concurrent.futures import ThreadPoolExecutor
    per = {}
    with ThreadPoolExecutor(n) as ex:
        for part, (outs, r) in zip(parts, ex.map(tlc, parts)):
            check.add(states=r.distinct, transitions=r.generated)
            for i, c in enumerate(part):
                o = outs.get(i)
                if o is None:
                    check.violation('NoAnswer', dict(call=c['key'], out=crash(r.out)), key=c['key'])
                    continue
                p = per.setdefault(c['name'], dict(ok=0, notpre=0, unknown=0, bad=0, decided=0, clauses=0))
                p['decided'] += o['dec']
                p['clauses'] += o['all']
                if o['v'] in ('ok', 'notpre', 'unknown'):
                    p[o['v']] += 1
                else:
                    p['bad'] += 1
                    check.violation(o['v'], dict(call=c['key'], clause=o['i'], kind=o['k'], raised=c['exc'], result=c['res'],
                                                 after=c['h1']), key=c['key'])
    check.coverage['per_operation' + ('' if bv == 8 else '_%d' % bv)] = per
    check.add(contracts_hold=sum(p['ok'] for p in per.values()), outside_precondition=sum(p['notpre'] for p in per.values()),
              undecided=sum(p['unknown'] for p in per.values()), clauses=sum(p['clauses'] for p in per.values()),
              clauses_decided=sum(p['decided'] for p in per.values()))
