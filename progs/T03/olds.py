from nagini_contracts.contracts import *


class P:
    def __init__(self, x: int, b: bool) -> None:
        Ensures(Acc(self.x) and Acc(self.b) and self.x == x and self.b == b)  # type: ignore
        self.x = x
        self.b = b


def cond1(p: P, n: int) -> int:
    Requires(Acc(p.x) and Acc(p.b))
    Ensures(Acc(p.x) and Acc(p.b))
    Ensures(Result() == Old(p.x if p.b else 0 - p.x))
    r = p.x if p.b else 0 - p.x
    p.x = p.x + n
    if n == 2:
        r = p.x
    if n == 1:
        p.b = not p.b
    return r


# run: 0..2; bool
def old_cond(n: int, b: bool) -> int:
    return cond1(P(5, b), n)


def cond2(p: P, n: int) -> None:
    Requires(Acc(p.x) and Acc(p.b))
    Ensures(Acc(p.x) and Acc(p.b))
    Ensures(p.x == Old(p.x) + n)
    Ensures(p.b == Old(p.b if n > 0 else not p.b))
    Ensures(Implies(Old(p.x > 0 and p.b), p.x > 3))
    p.x = p.x + n
    if n <= 0:
        p.b = not p.b
    if n == 3:
        p.x = p.x + 1


# run: -2..4; bool
def old_cond2(n: int, b: bool) -> int:
    p = P(2, b)
    cond2(p, n)
    return p.x


def olds(p: P, q: P, n: int) -> int:
    Requires(Acc(p.x) and Acc(q.x))
    Ensures(Acc(p.x) and Acc(q.x))
    Ensures(p.x == Old(q.x) and q.x == Old(p.x))
    Ensures(Result() == p.x + Old(p.x) or Result() == 0 - Old(p.x - q.x))
    a = p.x
    p.x = q.x
    q.x = a
    if n == 1:
        p.x = p.x + 1
    if n == 2:
        return 0 - a + p.x
    if n == 3:
        return a - p.x
    return p.x + q.x


# run: 0..3
def swap(n: int) -> int:
    return olds(P(3, True), P(5, True), n)


def old_call(p: P, n: int) -> int:
    Requires(Acc(p.x))
    Ensures(Acc(p.x))
    Ensures(Result() == Old(twice(p)) + twice(p))
    r = p.x * 2
    p.x = p.x + n
    if n == 2:
        return r + r
    return r + p.x * 2


@Pure
def twice(p: P) -> int:
    Requires(Acc(p.x))
    return p.x * 2


# run: 0..3
def pure_old(n: int) -> int:
    return old_call(P(4, False), n)


# run: -1..4
def in_loop(n: int) -> int:
    p = P(0, True)
    i = 0
    while i < 3:
        Invariant(Acc(p.x))
        Invariant(p.x == (i if n != 1 else 0 - i))
        i += 1
        if n == 1:
            p.x = p.x - 1
        elif n == 3 and i == 2:
            p.x = p.x + 2
        else:
            p.x = p.x + 1
    Assert(p.x == 3 or n == 1)
    return p.x


def set_to(p: P, v: int) -> None:
    Requires(Acc(p.x))
    Requires(v > p.x)
    Ensures(Acc(p.x))
    Ensures(p.x == v)
    p.x = v


# run: 0..4
def loop_old(n: int) -> int:
    p = P(1, True)
    set_to(p, 2)
    set_to(p, n + 1)
    return p.x


def exc_old(p: P, n: int) -> int:
    Requires(Acc(p.x))
    Ensures(Acc(p.x) and p.x == Old(p.x) + 1)
    Exsures(Exception, Acc(p.x) and p.x == Old(p.x if n > 1 else 0 - p.x))
    if n == 1:
        p.x = 0 - p.x
        raise Exception()
    if n == 2:
        raise Exception()
    if n == 3:
        p.x = 7
        raise Exception()
    p.x = p.x + 1
    return p.x


# run: 0..3
def exc_old_run(n: int) -> int:
    Exsures(Exception, True)
    return exc_old(P(4, True), n)
