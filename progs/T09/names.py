from nagini_contracts.contracts import *
from typing import List
from selmod import helper, Shape


class A:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v

    @Predicate
    def state(self) -> bool:
        return Acc(self.v)

    def run(self, x: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() == x + self.v)
        return x + self.v

    @Pure
    def look(self) -> int:
        Requires(Acc(self.v))
        return self.v

    @staticmethod
    def make(x: int) -> int:
        Ensures(Result() == x)
        return x

    def same(self) -> int:
        Ensures(Result() == 3)
        return 3


class B(A):
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and Acc(self.extra) and self.v == v)  # type: ignore
        super().__init__(v)
        self.extra = 0

    @Predicate
    def state(self) -> bool:
        return Acc(self.extra)

    def run(self, x: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v) and Result() == x + self.v)
        y = x + self.v
        return y

    @staticmethod
    def make(x: int) -> int:
        Ensures(Result() == x)
        y = x
        return y

    @property
    def twice(self) -> int:
        Requires(Acc(self.v))
        return self.v * 2


class C(B):
    def same(self) -> int:
        Ensures(Result() == 3)
        return 1 + 2


class D(Shape):
    def grow(self, d: int) -> None:
        Requires(Acc(self.w))
        Ensures(Acc(self.w) and self.w == Old(self.w) + d)
        self.w = d + self.w


@Predicate
def both(a: A, b: A) -> bool:
    return Acc(a.v) and Acc(b.v)


@Pure
def run(x: int) -> int:
    Requires(x > 0)
    Ensures(Result() > x)
    return grow(x) + x


@Pure
def grow(x: int) -> int:
    Requires(x > 0)
    Ensures(Result() > 0)
    return x


def uses(x: int) -> int:
    Requires(x > 0)
    Ensures(Result() == x + 1)
    a = A(x)
    Fold(a.state())
    Unfold(a.state())
    b = A(x)
    Fold(both(a, b))
    Unfold(both(a, b))
    s = Shape()
    s.grow(run(x))
    return helper(x)


def recursive(x: int) -> int:
    Requires(x >= 0)
    if x == 0:
        return uses(1)
    return mutual(x - 1)


def mutual(x: int) -> int:
    Requires(x >= 0)
    if x == 0:
        return 0
    return recursive(x - 1)


def loops(l: List[int]) -> int:
    Requires(list_pred(l))
    Ensures(list_pred(l))
    r = 0
    for x in l:
        Invariant(list_pred(l))
        try:
            r += x
        finally:
            r += 1
    return r
