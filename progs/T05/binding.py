from nagini_contracts.contracts import *
from typing import Optional, List, Tuple, Dict


def pos(a: int, b: int, c: int) -> int:
    return a * 100 + b * 10 + c


def deflt(a: int, b: int = 4, c: int = 6) -> int:
    return a * 100 + b * 10 + c


def star(a: int, *rest: int) -> int:
    return a * 100 + len(rest) * 10 + (rest[0] if len(rest) > 0 else 0)


def kw(a: int, **opts: int) -> int:
    return a * 100 + len(opts)


def kwonly(a: int, *, k: int = 3, m: int) -> int:
    return a * 100 + k * 10 + m


class K:
    def __init__(self, a: int, b: int = 2) -> None:
        Ensures(Acc(self.a) and Acc(self.b))  # type: ignore
        Ensures(self.a == a and self.b == b)  # type: ignore
        self.a = a
        self.b = b

    def m(self, x: int, y: int = 1) -> int:
        Requires(Acc(self.a))
        Ensures(Acc(self.a))
        return self.a * 100 + x * 10 + y

    def __add__(self, other: 'K') -> int:
        Requires(Acc(self.a) and Acc(other.b))
        Ensures(Acc(self.a) and Acc(other.b))
        return self.a * 10 + other.b

    @Pure
    def __lt__(self, other: 'K') -> bool:
        Requires(Acc(self.a) and Acc(other.b))
        return self.a < other.b

    def __len__(self) -> int:
        Requires(Acc(self.b))
        Ensures(Acc(self.b))
        return self.b

    def __getitem__(self, i: int) -> int:
        Requires(Acc(self.b))
        Ensures(Acc(self.b))
        return self.b + i

    def __setitem__(self, i: int, v: int) -> None:
        Requires(Acc(self.b))
        Ensures(Acc(self.b))
        Ensures(self.b == i * 10 + v)
        self.b = i * 10 + v


# run: 0..2
def keywords(x: int) -> int:
    return pos(x, c=1, b=2) + 1000 * pos(c=x, a=7, b=8)


# run: 0..2
def defaults(x: int) -> int:
    return deflt(x) + 1000 * deflt(x, 1) + 1000000 * deflt(x, c=2)


# run: 0..2
def defaults2(x: int) -> int:
    return deflt(c=x, a=1) + 1000 * deflt(b=x, a=2)


# run: 0..2
def stars(x: int) -> int:
    return star(x) + 1000 * star(x, 5) + 1000000 * star(x, 7, 8)


# run: 0..2
def kws(x: int) -> int:
    return kw(x) + 1000 * kw(x, p=1, q=2)


# run: 0..2
def kwonlys(x: int) -> int:
    return kwonly(x, m=2) + 1000 * kwonly(1, m=x, k=8)


# run: 0..2
def ctor(x: int) -> int:
    k = K(x)
    l = K(b=x, a=5)
    return k.a * 1000 + k.b * 100 + l.a * 10 + l.b


# run: 0..2
def meth(x: int) -> int:
    k = K(x)
    return k.m(1) + 1000 * k.m(y=3, x=4)


# run: 0..2; 0..2
def ops(x: int, y: int) -> int:
    k = K(x, 5)
    l = K(7, y)
    return k + l


# run: 0..2; 0..2
def cmps(x: int, y: int) -> bool:
    k = K(x, 5)
    l = K(7, y)
    return k < l


# run: 0..2
def lens(x: int) -> int:
    k = K(1, x)
    return len(k) * 10 + k[3]


# run: 0..2
def setitem(x: int) -> int:
    k = K(1, x)
    k[x] = 4
    return k.b


def mix(a: int, b: int = 3, *, k: int = 5, j: int = 6) -> int:
    return a * 1000 + b * 100 + k * 10 + j


# run: 0..2
def mixes(x: int) -> int:
    return mix(x) + 10000 * mix(1, x, j=x)


# run: 0..2
def mixes2(x: int) -> int:
    return mix(b=x, a=2, k=1)


class S:
    @staticmethod
    def st(a: int, b: int = 7) -> int:
        return a * 10 + b

    @classmethod
    def cl(cls, a: int, b: int = 8) -> int:
        return a * 10 + b


# run: 0..2
def statics(x: int) -> int:
    return S.st(x) + 100 * S.st(x, 1) + 10000 * S.cl(x)
