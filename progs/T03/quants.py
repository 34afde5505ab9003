from nagini_contracts.contracts import *
from typing import List, Optional, Tuple, Dict, Set


# run: 0..4
def over_list(n: int) -> int:
    l = [0, n, 2]
    Assert(Forall(l, lambda x: x != 3))
    Assert(Exists(int, lambda x: x in l and x > 0))
    Assert(not Forall(l, lambda x: x == 0))
    return 1


# run: 0..4
def over_set(n: int) -> int:
    s = {n, 2}
    Assert(Forall(s, lambda x: x < 4))
    Assert(not Exists(int, lambda x: x in s and x == 3))
    return 1


# run: 0..4
def over_dict(n: int) -> int:
    d = {n: 1, 2: 5}
    Assert(Forall(int, lambda x: Implies(x in d, d[x] > 0)))
    Assert(Forall(int, lambda x: Implies(x in d, x < 4)))
    Assert(Implies(n != 2, d[n] == 1))
    return 1


# run: 0..4
def over_seq(n: int) -> int:
    s = PSeq(n, 1)
    Assert(Forall(s, lambda x: x < 3))
    Assert(Forall(int, lambda i: Implies(0 <= i and i < len(s), s[i] != 0)))
    return 1


# run: -1..4
def bools_q(n: int) -> int:
    Assert(Forall(bool, lambda b: Implies(b, n < 3)))
    Assert(Exists(int, lambda i: i == n + 1 and i > 0))
    return 1


# run: 0..3; 0..3
def nested_q(n: int, m: int) -> int:
    Assert(Forall(int, lambda i: Implies(0 <= i and i < n, Forall(int, lambda j: Implies(0 <= j and j < m, i + j < 3)))))
    return 1


# run: 0..3; 0..3
def forall_exists(n: int, m: int) -> int:
    Assert(Forall(int, lambda i: Implies(0 <= i and i < n, Exists(int, lambda j: 0 <= j and j < m and j > i))))
    return 1


# run: 0..3
def three(n: int) -> int:
    Assert(Forall3(int, int, int, lambda i, j, k: (Implies(0 <= i and i < n and j == i + 1 and k == j + 1, k <= 3), [[]])))
    return 1


def all_pos(l: List[int]) -> int:
    Requires(list_pred(l))
    Requires(Forall(int, lambda i: (Implies(0 <= i and i < len(l), l[i] > 0), [[l[i]]])))
    Ensures(list_pred(l))
    Ensures(Result() > 0)
    s = 1
    for x in l:
        Invariant(s > 0)
        s = s * x
    return s


# run: 0..3
def call_all_pos(n: int) -> int:
    return all_pos([1, n, 2])


@Pure
def sq(n: int) -> int:
    Ensures(Result() >= 0)
    return n * n


# run: 0..3
def pure_in_quant(n: int) -> int:
    Assert(Forall(int, lambda i: Implies(0 <= i and i < n, sq(i) < 4)))
    return 1


# run: 0..3
def shadow(i: int) -> int:
    Assert(Forall(int, lambda j: Implies(j == i, j < 3)))
    Assert(Exists(int, lambda j: j == i + 1 and j < 3))
    return 1


# run: 0..3
def int_let(n: int) -> int:
    Assert(Let(n * 2, bool, lambda x: Let(x + 1, bool, lambda y: y != 5 and x != 6)))
    return n


@Predicate
def even(n: int) -> bool:
    return n % 2 == 0


@Predicate
def small(n: int, m: int) -> bool:
    return even(n) and n < m


# run: 0..4
def fold_check(n: int) -> int:
    Fold(even(n))
    return n


# run: 0..4
def fold_twice(n: int) -> int:
    Assume(n % 2 == 0)
    Fold(even(n))
    Fold(small(n, 4))
    Unfold(small(n, 4))
    Unfold(even(n))
    return n


# run: 0..3
def mset_q(n: int) -> int:
    l = [1, n, 2]
    Assert(ToMS(ToSeq(l)).num(1) == 1)
    Assert(ToMS(ToSeq(l)) == PMultiset(2, 1, n))
    return 1


# run: 0..3
def pset_ops(n: int) -> int:
    s = PSet(1, 2) + PSet(n)
    t = s - PSet(2)
    Assert(not (2 in t))
    Assert(n in t or n == 2)
    Assert(len(t) == 1 or n == 0)
    return 1
