from nagini_contracts.contracts import *
from nagini_contracts.obligations import MustTerminate
from typing import Optional


def ok(n: int) -> int:
    Requires(MustTerminate(1))
    Ensures(Result() == n)
    return n


def two(n: int) -> int:
    Requires(MustTerminate(2))
    Ensures(Result() == n)
    return ok(n)


def unbounded(n: int) -> int:
    Ensures(Result() == n)
    return n


def conditional(b: bool, n: int) -> int:
    Requires(Implies(b, MustTerminate(1)))
    Ensures(Result() == n)
    return n


def either(b: bool, n: int) -> int:
    Requires(MustTerminate(1) if b else MustTerminate(3))
    Ensures(Result() == n)
    return n


def measured(n: int) -> int:
    Requires(MustTerminate(n))
    Ensures(Result() == n)
    return n


@Pure
def plus(n: int) -> int:
    return n + 1


# run: 0..3
def calls(k: int) -> int:
    Requires(MustTerminate(2))
    if k == 1:
        return two(k) #! term
    if k == 2:
        return unbounded(k) #! term
    return ok(k)


# run: 0..3
def nopromise(k: int) -> int:
    a = two(k)
    b = unbounded(k)
    return a + b


# run: bool
def conds(b: bool) -> int:
    Requires(MustTerminate(2))
    if not b:
        return conditional(b, 1) #! term
    return conditional(b, 1)


# run: bool
def conds2(b: bool) -> int:
    Requires(MustTerminate(2))
    if not b:
        return either(b, 1) #! term
    return either(b, 1)


# run: bool
def conds3(b: bool) -> int:
    Requires(Implies(b, MustTerminate(2)))
    if b:
        return unbounded(1) #! term
    return unbounded(2)


# run: 0..4
def measure(k: int) -> int:
    Requires(MustTerminate(3))
    if k == 0:
        return measured(k) #! term
    if k > 2:
        return measured(k) #! term
    return measured(k)


# run: 0..4
def nomeasure(k: int) -> int:
    if k == 0:
        return measured(k) #! term
    return measured(k)


# run: 0..3
def rec(k: int) -> int:
    Requires(MustTerminate(k + 1))
    if k > 0:
        return rec(k - 1)
    return 0


# run: 0..3
def badrec(k: int) -> int:
    Requires(MustTerminate(k + 1))
    if k == 2:
        return badrec(k) #! term
    if k == 3:
        return badrec(k + 1) #! term
    if k > 0:
        return badrec(k - 1)
    return 0


# run: 0..3
def sameconst(k: int) -> int:
    Requires(MustTerminate(2))
    if k > 0:
        return sameconst(k - 1) #! term
    return 0


# run: 0..3
def even(k: int) -> bool:
    Requires(k >= 0)
    Requires(MustTerminate(2 * k + 1))
    if k == 0:
        return True
    return odd(k - 1)


# run: 0..3
def odd(k: int) -> bool:
    Requires(k >= 0)
    Requires(MustTerminate(2 * k + 1))
    if k == 0:
        return False
    return even(k - 1)


# run: 0..3; 0..2
def ackstep(m: int, n: int) -> int:
    Requires(m >= 0 and n >= 0)
    Requires(MustTerminate(m * 4 + n + 1))
    if m == 0:
        return n + 1
    if n == 0:
        return ackstep(m - 1, 1)
    return ackstep(m, n - 1)


# run: 0..3
def nothing(k: int) -> int:
    Requires(MustTerminate(1))
    if k == 1:
        return ok(k) #! term
    return plus(k)


# run: 0..3
def several(k: int) -> int:
    Requires(MustTerminate(2))
    a = ok(k)
    b = ok(a)
    if k == 3:
        b = unbounded(b) #! term
    return a + b


# run: 0..3
def changed(k: int) -> int:
    Requires(MustTerminate(k + 1))
    k = k + 5
    if k == 8:
        return measured(k) #! term
    return 0


# run: 0..3
def builtin(k: int) -> int:
    Requires(MustTerminate(2))
    l = [1, 2]
    l.append(k)
    l[0] = k
    return l[0] + l[2] + len(l)


class Node:
    def __init__(self, n: int) -> None:
        Requires(MustTerminate(1))
        Ensures(Acc(self.n) and self.n == n) # type: ignore
        self.n = n

    def get(self, d: int) -> int:
        Requires(Acc(self.n))
        Requires(MustTerminate(d + 1))
        Ensures(Acc(self.n) and self.n == Old(self.n))
        if d > 0:
            return self.get(d - 1)
        return self.n

    def spin(self, d: int) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n))
        return self.n


# run: 0..3
def methods(k: int) -> int:
    Requires(MustTerminate(3))
    x = Node(k)
    if k == 3:
        return x.spin(k) #! term
    if k == 2:
        return x.get(k) #! term
    return x.get(k)


# run: 0..2
def raising(k: int) -> int:
    Requires(MustTerminate(2))
    Exsures(Exception, True)
    try:
        if k == 1:
            raise Exception()
        if k == 2:
            return unbounded(k) #! term
    except Exception:
        return ok(5)
    return ok(k)
