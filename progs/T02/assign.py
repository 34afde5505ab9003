from typing import *
from nagini_contracts.contracts import *


@Pure
def pswap(a: int, b: int) -> int:
    x = b
    y = a
    if a > b:
        y = b
    else:
        z = a
        y = z + y
    return x * 10 + y


@Pure
def pchain(a: int, b: int) -> int:
    x = a
    y = a
    x = x + 1
    return x * 10 + y


# run: 0..2; 0..2
def m1(a: int, b: int) -> int:
    return pswap(a, b) * 100 + pchain(a, b)


# run: 0..2; 0..2
def m2(a: int, b: int) -> int:
    x = a
    y = x = x + 1
    l = [a, b]
    l[0], l[1] = l[1], l[0]
    x, l[0] = l[0], x
    return x * 1000 + y * 100 + l[0] * 10 + l[1]


# run: 0..2; 0..2
def m3(a: int, b: int) -> int:
    x = a
    (x, y), z = (b, x), x
    return x * 100 + y * 10 + z


# run: 0..2; 0..2
def m4(a: int, b: int) -> int:
    r = 0
    for x, y in [(a, b), (b, a)]:
        z, x2 = y, x
        x2, z = z, x2
        r = r * 100 + x * 10 + y
    return r


class P:
    def __init__(self, x: int, y: int) -> None:
        Ensures(Acc(self.x) and self.x == x and Acc(self.y) and self.y == y)  # type: ignore
        self.x = x
        self.y = y


# run: 0..2; 0..2
def m5(a: int, b: int) -> int:
    p = P(a, b)
    p.x, p.y = p.y, p.x
    q = r = p
    q.x = 7
    return p.x * 100 + p.y * 10 + r.x


# run: 0..2; 0..2
def m6(a: int, b: int) -> int:
    first, *rest = (a, b, a + b)
    a, *more = (first, rest[0], rest[1])
    return first * 1000 + rest[0] * 100 + rest[1] * 10 + more[0]
