from nagini_contracts.contracts import *
from typing import List, Optional, Tuple


# run: -2..3
def plain(n: int) -> int:
    assert n > 0
    return n


# run: -2..3
def message(n: int) -> int:
    assert n != 2, "two"
    return n


# run: -2..3; -1..1
def conj(n: int, m: int) -> int:
    Assert(n > m and m != 0)
    return n - m


# run: -2..3
def nested(n: int) -> int:
    if n > 0:
        if n > 2:
            Assert(n == 4)
        else:
            assert n < 3
    else:
        Assert(n != -1)
    return n


# run: -2..3
def impl(n: int) -> int:
    Assert(Implies(n > 0, n != 2))
    Assert(Implies(n <= 0, n == -2 or n == -1))
    return 0


# run: -2..3
def tern(n: int) -> int:
    Assert(n > 1 if n >= 0 else n == -1)
    return 0


# run: -2..3
def loop(n: int) -> int:
    i = 0
    while i < 3:
        Invariant(i >= 0 and i <= 3)
        Assert(i != n)
        i += 1
    return i


# run: -2..3
def div_in_assert(n: int) -> int:
    Assert(10 // n > 0)
    return n


# run: -2..3
def short(n: int) -> int:
    Assert(n == 0 or 6 // n != 3)
    return n


# run: -2..5
def quant(n: int) -> int:
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < n, i * i < 10)))
    return n


# run: -2..5
def quant_exists(n: int) -> int:
    Assert(Exists(int, lambda i: i >= 0 and i < n and i * i == 4))
    return n


# run: -2..4; -2..4
def quant2(n: int, m: int) -> int:
    Assert(Forall2(int, int, lambda i, j: (Implies(i >= 0 and i < n and j >= 0 and j < m, i + j < 5), [[]])))
    return n


# run: -1..3
def isn(n: int) -> int:
    x = None  # type: Optional[int]
    if n > 1:
        x = n
    Assert(x is not None)
    return 1


# run: -1..3
def tup(n: int) -> int:
    t = (n, n + 1)
    Assert(t[0] + t[1] != 3)
    assert t[1] > t[0]
    return t[0]


# run: 0..4
def chain(n: int) -> int:
    assert 0 < n < 3
    return n


# run: 0..4
def chain2(n: int) -> int:
    assert 1 <= n != 3
    return n


# run: 0..3
def seqs(n: int) -> int:
    s = PSeq(1, 2, n)
    Assert(len(s) == 3)
    Assert(s[2] != 2)
    Assert(3 in s or s[2] == 1)
    return n


# run: 0..3
def seqs2(n: int) -> int:
    s = PSeq(1, 2, 3)
    t = s.update(n, 7) if n < 3 else s
    Assert(t.take(1) == PSeq(1) or n == 0)
    Assert(t.drop(2) == PSeq(3))
    return n


# run: 0..3
def sets(n: int) -> int:
    s = PSet(1, 2)
    Assert(n in s or n == 0)
    Assert(len(s + PSet(n)) == 2 or n == 0)
    return n


# run: 0..3
def msets(n: int) -> int:
    s = PMultiset(1, 2, n)
    Assert(s.num(1) == 1)
    Assert(s.num(n) > 0)
    return n


# run: 0..4
def lists(n: int) -> int:
    l = [1, 2, 3]
    if n < 3:
        l[n] = 9
    Assert(l[0] == 1)
    Assert(len(l) == 3 and l[2] < 5)
    return l[1]


# run: 0..4
def lists_all(n: int) -> int:
    l = [1, n, 3]
    Assert(Forall(l, lambda x: x < 4))
    Assert(Forall(int, lambda i: (Implies(i >= 0 and i < len(l), l[i] > 0), [[l[i]]])))
    return l[1]


# run: 0..4
def toseq(n: int) -> int:
    l = [1, n]
    Assert(ToSeq(l) == PSeq(1, 2) or n != 2)
    Assert(ToSeq(l) != PSeq(1, 3))
    return 1


# run: -1..3
def assume_cuts(n: int) -> int:
    Assume(n > 0)
    Assert(n != 0)
    assert n < 3
    return n


# run: 0..3
def letting(n: int) -> int:
    Assert(Let(n + 1, bool, lambda x: x * x < 10))
    return n


class E1(Exception):
    pass


# run: 0..3
def in_handlers(n: int) -> int:
    r = 0
    try:
        if n > 1:
            raise E1()
        assert n == 0
        r = 1
    except E1:
        Assert(n == 2)
        r = 2
    finally:
        Assert(n < 4)
    return r


# run: 0..3
def in_else(n: int) -> int:
    r = 0
    try:
        if n == 0:
            raise E1()
    except E1:
        r = 1
    else:
        assert n != 2
    finally:
        assert r == 0 or n == 0
        r += 1
    return r


# run: bool; bool
def bools(a: bool, b: bool) -> bool:
    assert a or b
    Assert(not (a and b))
    return a


# run: 0..3
def strs(n: int) -> str:
    s = 'ab' if n > 1 else 'b'
    assert s != 'b' or n == 0
    Assert(len(s) < 3)
    return s


# run: 0..2
def asserting_mid_expression(n: int) -> int:
    x = n
    assert x == n
    x = x + 1
    assert x != 2
    x = x * 2
    assert x > n
    return x
