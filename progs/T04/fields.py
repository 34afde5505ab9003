from nagini_contracts.contracts import *
from typing import Optional


class C:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and Acc(self.w))  # type: ignore
        Ensures(self.v == v and self.w == v + 1)  # type: ignore
        self.v = v
        self.w = v + 1


class Half:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v
        self.hidden = v


def nothing(c: C) -> int:
    return 3


def reads(c: C) -> int:
    Requires(Acc(c.v, 1/2))
    Ensures(Acc(c.v, 1/2) and Result() == c.v)
    return c.v


def loses_half(c: C) -> int:
    Requires(Acc(c.v, 1/2))
    return c.v


def takes(c: C) -> None:
    Requires(Acc(c.v))


def keeps(c: C, x: int) -> None:
    Requires(Acc(c.v) and Acc(c.w))
    Ensures(Acc(c.v) and c.v == x)
    c.v = x


def cond(c: C, b: bool) -> None:
    Requires(Implies(b, Acc(c.v)))
    Ensures(Implies(b, Acc(c.v) and c.v == 7))
    if b:
        c.v = 7


def third(c: C) -> None:
    Requires(Acc(c.v, 1/3))
    Ensures(Acc(c.v, 1/3))


def wild(c: C) -> int:
    Requires(Wildcard(c.v))
    Ensures(Wildcard(c.v))
    return c.v


@Pure
def pureread(c: C) -> int:
    Requires(Acc(c.v))
    return c.v + 5


# run: 0..1
def plain(k: int) -> int:
    c = C(k)
    c.v += 2
    nothing(c)
    return c.v + c.w


# run: 0..1
def hidden(k: int) -> int:
    c = Half(4)
    x = c.v
    if k == 0:
        x = c.hidden #! perm
    return x


# run: 0..3
def after_take(k: int) -> int:
    c = C(k)
    takes(c)
    x = c.w
    if k == 0:
        x = c.v #! perm
    if k == 1:
        c.v = 3 #! perm
    if k == 2:
        takes(c) #! perm
    return x


# run: 0..4
def halves(k: int) -> int:
    c = C(k)
    x = reads(c)
    x += loses_half(c)
    x += c.v
    if k == 1:
        c.v = 4 #! perm
    x += reads(c)
    if k == 2:
        keeps(c, 5) #! perm
    if k == 3:
        x += loses_half(c)
        x += c.v #! perm
    third(c)
    return x


# run: 0..3
def lose_w(k: int) -> int:
    c = C(k)
    keeps(c, k + 4)
    x = c.v
    if k == 1:
        x = c.w #! perm
    if k == 2:
        keeps(c, 3) #! perm
    return x


# run: 0..3
def conds(k: int) -> int:
    c = C(k)
    if k == 2:
        takes(c)
        cond(c, False)
        cond(c, True) #! perm
    cond(c, k == 1)
    if k == 3:
        cond(c, True)
    return c.v


# run: 0..2
def wilds(k: int) -> int:
    c = C(k)
    x = wild(c) + wild(c)
    x += loses_half(c)
    x += wild(c)
    if k == 1:
        x += loses_half(c) #! perm
    if k == 2:
        c.v = 3 #! perm
    return x


# run: 0..2
def pures(k: int) -> int:
    c = C(k)
    x = pureread(c)
    loses_half(c)
    if k == 1:
        x = pureread(c) #! perm
    return x


# run: 0..2
def aliases(k: int) -> int:
    c = C(k)
    d = c
    if k == 1:
        d = C(8)
    takes(d)
    if k == 1:
        return c.v
    return c.v #! perm


# run: 0..2
def asserts(k: int) -> int:
    c = C(k)
    Assert(Acc(c.v))
    Assert(Acc(c.v, 1/2))
    loses_half(c)
    Assert(Acc(c.v, 1/2))
    if k == 1:
        Assert(Acc(c.v)) #! perm
    if k == 2:
        Assert(Acc(c.v, 2/3)) #! perm
    return c.v


# run: 0..3
def late(k: int) -> int:
    Ensures(Result() >= 0)
    c = C(k)
    i = 0
    while i < 2:
        Invariant(Acc(c.v) and i >= 0 and c.v >= 0)
        i += 1
        c.v += i
        if k == 2:
            c.w = 3 #! perm
    x = c.v
    if k == 1:
        x += c.w
    return x


# run: 0..3
def loopframe(k: int) -> int:
    c = C(k)
    i = 0
    while i < 2:
        Invariant(Acc(c.v, 1/2) and i >= 0)
        i += 1
        if k == 1:
            c.v = 3 #! perm
    c.v = i + 5
    return c.v


# run: 0..3
def loopdrop(k: int) -> int:
    c = C(k)
    i = 0
    while i < 2:
        Invariant(Implies(i < 1, Acc(c.v)))
        i += 1
        if i == 2 and k == 1:
            c.v = 4 #! perm
    if k == 2:
        c.v = 3 #! perm
    return i


def ret_some(b: bool) -> C:
    Ensures(Implies(b, Acc(Result().v) and Result().v == 5))
    c = C(5)
    return c


# run: 0..3
def some(k: int) -> int:
    c = ret_some(k >= 2)
    if k == 3:
        c.w = 3 #! perm
    if k == 1:
        return c.v #! perm
    if k == 0:
        return 0
    return c.v


class E(Exception):
    pass


def raises(c: C, b: bool) -> None:
    Requires(Acc(c.v) and Acc(c.w))
    Ensures(Acc(c.v))
    Exsures(E, Acc(c.w) and c.w == 3)
    if b:
        c.w = 3
        raise E()


# run: 0..3
def exc(k: int) -> int:
    c = C(1)
    try:
        raises(c, k >= 2)
        if k == 1:
            return c.w #! perm
        return c.v
    except E:
        if k == 3:
            return c.v #! perm
        return c.w
