from typing import List
from nagini_contracts.contracts import *


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v

    def grow(self, k: int) -> int:
        Requires(Acc(self.v) and k > 0 and k < 9) # why: k > 0
        Ensures(Acc(self.v) and self.v == Old(self.v) + k)
        Ensures(Result() == self.v)
        self.v = self.v + k
        return self.v


def pos(n: int) -> int:
    Requires(n > 0)
    Ensures(Result() == n + 1)
    return n + 1


def both(a: int,
         b: int) -> int:
    Requires(a > 0 and
             b > 1 and
             a != b)
    Ensures(Result() == a * 10 + b)
    return a * 10 + b


@Pure
def half(i: int, j: int) -> int:
    Requires(j != 0)
    return i // j


# run: 0..3
def same_line(n: int) -> int:
    return pos(2) + pos(n) + pos(3) # at: pos(n)


# run: 0..3
def inner_call(n: int) -> int:
    return pos(pos(n)) # at: pos(n)


# run: 0..3
def outer_call(n: int) -> int:
    return pos(pos(n + 1) - 2) # at: pos(pos(n + 1) - 2)


# run: 0..3
def two_statements(n: int) -> int:
    x = pos(1); y = pos(n); z = pos(4) # at: pos(n)
    return x + y + z


# run: 0..3
def asserts_on_line(n: int) -> int:
    assert n >= 0; assert n != 2; assert n < 9 # at: assert n != 2
    return n


# run: 0..3
def ghost_asserts(n: int) -> int:
    Assert(n >= 0); Assert(n >= 0 and n != 2) # at: Assert(n >= 0 and n != 2) # why: n != 2
    return n


# run: 0..3
def over_lines(n: int) -> int:
    x = both(n,
             n + 2) + both(1,
                           2)
    return x


# run: 0..3
def second_operand(n: int) -> int:
    return both(1, 2) + both(n, 2) + both(3, 2) # at: both(n, 2)


# run: 0..3
def in_args(n: int) -> int:
    c = Cell(n)
    return both(c.grow(1), c.grow(n)) # at: c.grow(n)


# run: 0..3
def receiver(n: int) -> int:
    a = Cell(1)
    b = Cell(2)
    return a.grow(2) + b.grow(n) + a.grow(1) # at: b.grow(n)


# run: 0..3
def post_first(n: int) -> int:
    Ensures(Result() >= 0)
    Ensures(Result() != 2 and Result() < 100) # at: Result() != 2 and Result() < 100 # why: Result() != 2
    Ensures(Result() >= -1)
    return n


# run: 0..4
def post_branch(n: int) -> int:
    Ensures(Implies(n > 1, Result() > 3)) # at: Implies(n > 1, Result() > 3)
    if n > 3:
        return n
    elif n > 2:
        return 3
    return 5


# run: 0..4
def loop_inv(n: int) -> int:
    i = 0
    while i < 4:
        Invariant(i >= 0 and i <= 4)
        Invariant(i != n) # at: i != n
        i += 1
    return i


# run: 0..3
def for_inv(n: int) -> int:
    s = 0
    for x in range(0, 3):
        Invariant(s >= 0); Invariant(s < 3 + n) # at: s < 3 + n
        s += x
    return s


# run: 0..3
def application(n: int) -> int:
    return half(9, 1) + half(9, n) + half(8, 2) # at: half(9, n)


# run: 0..3
def divide(n: int) -> int:
    return 9 // 3 + 9 // n + 8 % 2 # at: 9 // n


# run: 0..3
def modulo(n: int) -> int:
    x = (n + 1) % 5 + 7 % n # at: 7 % n
    return x


# run: 0..2
def nested_try(n: int) -> int:
    try:
        if n == 1:
            raise Exception()
        x = pos(1) + pos(n) # at: pos(n)
    except Exception:
        x = pos(n) + pos(0) # at: pos(0)
    finally:
        y = pos(6)
    return x + y


# run: 0..2
def lam(n: int) -> int:
    xs = [1, 2, 3]
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < 3, xs[i] > 0)) and n != 1) # why: n != 1
    return n


# run: 0..2
def index(n: int) -> int:
    xs = [1, 2]
    return xs[0] + xs[n] + xs[1] # at: xs[n]


# run: 0..3
def chained(n: int) -> int:
    c = Cell(3)
    x = c.grow(1) + (c.grow(2) if n > 2 else c.grow(n - 1)) # at: c.grow(n - 1)
    return x
