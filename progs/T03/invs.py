from nagini_contracts.contracts import *
from typing import List, Optional, Tuple, Dict, Set


# run: -1..4
def entry(n: int) -> int:
    i = n
    while i < 3:
        Invariant(i >= 0)
        i += 1
    return i


# run: 0..4
def preserved(n: int) -> int:
    i = 0
    while i < 4:
        Invariant(i != n or i == 0)
        i += 1
    return i


# run: 0..4
def two_invs(n: int) -> int:
    i = 0
    s = 0
    while i < n:
        Invariant(i <= n)
        Invariant(s == i * (i - 1) // 2)
        s += i
        if i == 2:
            s += 1
        i += 1
    return s


# run: 0..4
def with_break(n: int) -> int:
    i = 0
    while True:
        Invariant(i < 3)
        if i == n:
            i = 10
            break
        i += 1
    return i


# run: 0..4
def with_continue(n: int) -> int:
    i = 0
    j = 0
    while i < 4:
        Invariant(j <= 2)
        i += 1
        if i <= n:
            continue
        j += 1
    return j


# run: 0..3; 0..3
def nested(n: int, m: int) -> int:
    i = 0
    t = 0
    while i < n:
        Invariant(t == i * m)
        j = 0
        while j < m:
            Invariant(j <= m)
            Invariant(t == i * m + j)
            j += 1
            t += 1
            if t == 6:
                t += 1
        i += 1
    return t


# run: 0..4
def for_range(n: int) -> int:
    s = 0
    for i in range(0, n):
        Invariant(s == len(Previous(i)))
        s += 1
        if s == 3:
            s = 4
    return s


# run: 0..4
def for_list(n: int) -> int:
    l = [1, 2, n]
    s = 0
    for x in l:
        Invariant(s >= 0 and s < 6)
        s += x
    return s


# run: 0..4
def for_prev(n: int) -> int:
    l = [1, n, 2]
    m = 0
    for x in l:
        Invariant(Forall(int, lambda k: (Implies(k in Previous(x), k <= m), [[k in Previous(x)]])))
        if x > m and x != 4:
            m = x
    return m


# run: 0..4
def after_loop(n: int) -> int:
    i = 0
    while i < n:
        Invariant(i <= n or n < 0)
        i += 1
    Assert(i == n)
    Assert(i != 3)
    return i


class Box:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v))  # type: ignore
        Ensures(self.v == v)  # type: ignore
        self.v = v


# run: 0..4
def field_inv(n: int) -> int:
    b = Box(0)
    i = 0
    while i < n:
        Invariant(Acc(b.v))
        Invariant(b.v == i)
        b.v += 1
        i += 1
        if i == 3:
            b.v = 7
    return b.v


# run: 0..4
def old_inv(n: int) -> int:
    b = Box(n)
    return old_inv2(b)


def old_inv2(b: Box) -> int:
    Requires(Acc(b.v))
    Ensures(Acc(b.v))
    Ensures(b.v == Old(b.v))
    i = 0
    while i < 2:
        Invariant(Acc(b.v))
        Invariant(b.v >= Old(b.v))
        b.v += 1
        if b.v == 4:
            b.v = 0
        i += 1
    b.v -= 2
    return b.v


# run: 0..3
def return_in_loop(n: int) -> int:
    Ensures(Result() < 3)
    i = 0
    while True:
        Invariant(i <= n)
        if i == n:
            return i
        i += 1


class E1(Exception):
    pass


# run: 0..3
def raise_in_loop(n: int) -> int:
    Exsures(E1, n != 2)
    i = 0
    while i < 5:
        Invariant(i <= n)
        if i == n:
            raise E1()
        i += 1
    return i


# run: 0..3
def try_in_loop(n: int) -> int:
    i = 0
    c = 0
    while i < 3:
        Invariant(c <= 1)
        try:
            if i >= n:
                raise E1()
        except E1:
            c += 1
        i += 1
    return c


# run: 0..3
def else_loop(n: int) -> int:
    i = 0
    while i < 3:
        Invariant(i <= 3)
        if i == n:
            break
        i += 1
    else:
        Assert(i == 2)
        return 9
    Assert(i != 1)
    return i


# run: 0..3
def inv_div(n: int) -> int:
    i = 2
    while i >= n:
        Invariant(10 // i > 0)
        i -= 1
    return i
