# oracle: overrides
from nagini_contracts.contracts import *


class A:
    def weaker_post(self, x: int) -> int:
        Requires(x >= 0)
        Ensures(Result() >= x)
        return x + 1

    def stronger_pre(self, x: int) -> int:
        Requires(x >= 0)
        Ensures(Result() == x)
        return x

    def good(self, x: int) -> int:
        Requires(x >= 1)
        Ensures(Result() >= x)
        return x


class B(A):
    def weaker_post(self, x: int) -> int:
        Requires(x >= 0)
        Ensures(Result() >= x - 1)
        return x if x > 2 else x - 1

    def stronger_pre(self, x: int) -> int:
        Requires(x >= 2)
        Ensures(Result() == x)
        return x

    def good(self, x: int) -> int:
        Requires(x >= 0)
        Ensures(Result() >= x + 1)
        return x + 2


# run: 0..4; bool
def post(x: int, b: bool) -> int:
    a = A()
    if b:
        a = B()
    return a.weaker_post(x)


# run: 0..4; bool
def pre(x: int, b: bool) -> int:
    a = A()
    if b:
        a = B()
    return a.stronger_pre(x)


# run: 1..4; bool
def good(x: int, b: bool) -> int:
    a = A()
    if b:
        a = B()
    return a.good(x)


class E1(Exception):
    pass


class F:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v

    def bump(self, d: int) -> None:
        Requires(Acc(self.v) and d > 0)
        Ensures(Acc(self.v) and self.v > Old(self.v))
        self.v += d

    def less(self, d: int = 2) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == Old(self.v))
        Ensures(Result() <= self.v)
        return self.v - d

    def fails(self, d: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == d)
        Exsures(E1, Acc(self.v) and self.v == Old(self.v))
        if d == 1:
            raise E1()
        self.v = d
        return d


class G(F):
    def bump(self, d: int) -> None:
        Requires(Acc(self.v) and d >= 0)
        Ensures(Acc(self.v) and self.v >= Old(self.v))
        if d < 3:
            self.v += d

    def less(self, d: int = 2) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        Ensures(Result() <= Old(self.v))
        if d == 1:
            self.v = 0
        return self.v - d

    def fails(self, d: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and self.v == d)
        Exsures(E1, Acc(self.v) and self.v == Old(self.v))
        self.v = d
        return 2


# run: 1..4; bool
def bump(d: int, b: bool) -> int:
    a = F(1)
    if b:
        a = G(1)
    a.bump(d)
    return a.v


# run: 0..2; bool
def less(d: int, b: bool) -> int:
    a = F(1)
    if b:
        a = G(3)
    return a.less(d) + 10 * a.less()


# run: 0..2; bool
def fails(d: int, b: bool) -> int:
    a = F(1)
    if b:
        a = G(3)
    try:
        return a.fails(d) * 10
    except E1:
        return a.v


class P0:
    def far(self, x: int) -> int:
        Ensures(Result() >= x)
        return x

    def near(self, x: int) -> int:
        Requires(x > 0)
        Ensures(Result() == x)
        return x


class P1(P0):
    pass


class P2(P1):
    def near(self, x: int) -> int:
        Requires(x >= 0)
        Ensures(Result() == x)
        return x


class P3(P2):
    def far(self, x: int) -> int:
        Ensures(Result() <= x)
        return x if x < 2 else x - 1


# run: 0..3; bool
def far(x: int, b: bool) -> int:
    o = P0()
    if b:
        o = P3()
    return o.far(x)


# run: 1..3; 0..3
def near(x: int, k: int) -> int:
    o = P0()
    if k == 1:
        o = P1()
    elif k == 2:
        o = P2()
    elif k == 3:
        o = P3()
    return o.near(x)
