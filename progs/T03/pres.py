from nagini_contracts.contracts import *
from typing import List, Optional, Tuple


def pos(n: int) -> int:
    Requires(n > 0)
    Ensures(Result() == n + 1)
    return n + 1


def two(n: int, m: int) -> int:
    Requires(n > 0)
    Requires(m > 0 and m != n)
    Ensures(Result() == n * 10 + m)
    return n * 10 + m


def defaults(n: int, m: int = 3, k: int = 4) -> int:
    Requires(n != m)
    Requires(m != k)
    Ensures(Result() == n * 100 + m * 10 + k)
    return n * 100 + m * 10 + k


# run: -1..2
def call1(n: int) -> int:
    return pos(n)


# run: -1..2
def call_in_expr(n: int) -> int:
    x = 3 + pos(n) * pos(n - 1)
    return x


# run: 0..2; 0..2
def call2(n: int, m: int) -> int:
    return two(n, m)


# run: 0..4
def call3(n: int) -> int:
    a = defaults(n)
    return a


# run: 0..4; 2..5
def call4(n: int, k: int) -> int:
    return defaults(n, k=k)


# run: 2..5; 2..4
def call5(n: int, m: int) -> int:
    return defaults(m=m, n=n)


# run: 0..3
def call_cond(n: int) -> int:
    if n > 1 and pos(n - 1) > 2:
        return 1
    if n == 0 or pos(n) == 2:
        return 2
    return pos(n - 3)


# run: 0..3
def call_loop(n: int) -> int:
    i = 2
    s = 0
    while i >= n:
        Invariant(i >= n - 1)
        s += pos(i)
        i -= 1
    return s


class C:
    def __init__(self, v: int) -> None:
        Requires(v != 3)
        Ensures(Acc(self.v))  # type: ignore
        Ensures(self.v == v)  # type: ignore
        self.v = v

    def add(self, n: int) -> int:
        Requires(Acc(self.v))
        Requires(self.v < n)
        Ensures(Acc(self.v))
        Ensures(self.v == Old(self.v) + n)
        Ensures(Result() == self.v)
        self.v += n
        return self.v

    @staticmethod
    def stat(n: int) -> int:
        Requires(n % 2 == 0)
        Ensures(Result() == n // 2)
        return n // 2

    @classmethod
    def cls(cls, n: int) -> int:
        Requires(n != 1)
        Ensures(Result() == n)
        return n


# run: 2..4
def ctor(n: int) -> int:
    c = C(n)
    return c.v


# run: 0..2; 0..4
def meth(v: int, n: int) -> int:
    c = C(v)
    return c.add(n)


# run: 0..4
def meth_twice(n: int) -> int:
    c = C(1)
    c.add(2)
    return c.add(n)


# run: 0..3
def stat(n: int) -> int:
    return C.stat(n)


# run: 0..3
def stat_obj(n: int) -> int:
    c = C(0)
    return c.stat(n)


# run: 0..3
def clsm(n: int) -> int:
    return C.cls(n)


# run: -1..2
def own_pre(n: int) -> int:
    Requires(n >= 0)
    return pos(n)


@Pure
def half(n: int) -> int:
    Requires(n % 2 == 0)
    return n // 2


# run: 0..4
def pure_call(n: int) -> int:
    return half(n) + 1


# run: 0..4
def pure_cond(n: int) -> int:
    if n % 2 == 0 and half(n) % 2 == 0:
        return half(half(n))
    return half(n - 1) if n % 4 == 1 else half(n)


# run: 0..4
def pure_in_assert(n: int) -> int:
    Assert(half(n) < 2)
    return n


@Pure
def last(n: int) -> int:
    Requires(n >= 0)
    Decreases(n)
    if n == 0:
        return 0
    return half(2 * n) + last(n - 1)


# run: -1..3
def pure_rec(n: int) -> int:
    return last(n)


def lst(l: List[int], i: int) -> int:
    Requires(list_pred(l))
    Requires(i >= 0 and i < len(l))
    Requires(Forall(l, lambda x: x > 0))
    Ensures(list_pred(l))
    Ensures(Result() == l[i])
    return l[i]


# run: -1..3; 0..2
def list_call(i: int, x: int) -> int:
    return lst([1, x, 2], i)


def tup(t: Tuple[int, int]) -> int:
    Requires(t[0] <= t[1])
    Ensures(Result() == t[1] - t[0])
    return t[1] - t[0]


# run: 0..2; 0..2
def tup_call(a: int, b: int) -> int:
    return tup((a, b))


def opt(x: Optional[int]) -> int:
    Requires(x is not None)
    Ensures(Result() == x)
    return x


# run: 0..2
def opt_call(n: int) -> int:
    return opt(n if n > 0 else None)


def rec(n: int, m: int) -> int:
    Requires(n >= 0)
    Requires(m > n)
    Ensures(Result() >= 0)
    if n == 0:
        return 0
    return rec(n - 1, m - 2) + 1


# run: 0..2; 1..4
def rec_call(n: int, m: int) -> int:
    return rec(n, m)


def star(*args: int) -> int:
    Requires(len(args) > 1)
    Requires(args[0] > args[1])
    Ensures(Result() == args[0])
    return args[0]


# run: 0..2; 0..2
def star_call(a: int, b: int) -> int:
    if a == 0:
        return star(a)
    return star(a, b, 3)


def kw(**kwargs: int) -> int:
    Requires(len(kwargs) < 9)
    Requires('a' in kwargs)
    Requires(kwargs['a'] > 0)
    Ensures(Result() == 7)
    return 7


# run: 0..2
def kw_call(a: int) -> int:
    if a == 2:
        return kw(b=a)
    return kw(a=a, b=2)
