from nagini_contracts.contracts import *
from typing import List, Dict, Set, Optional


def takes(l: List[int]) -> None:
    Requires(list_pred(l))


def reads(l: List[int]) -> int:
    Requires(Acc(list_pred(l), 1/2))
    Ensures(Acc(list_pred(l), 1/2))
    return len(l)


def adds(l: List[int], v: int) -> None:
    Requires(list_pred(l))
    Ensures(list_pred(l) and len(l) == Old(len(l)) + 1 and l[len(l) - 1] == v)
    l.append(v)


# run: 0..4
def lists(k: int) -> int:
    l = [1, 2]
    x = reads(l)
    adds(l, k)
    x += l[2]
    takes(l)
    if k == 1:
        return len(l) #! perm
    if k == 2:
        l.append(2) #! perm
    if k == 3:
        l[0] = 4 #! perm
    if k == 4:
        x = l[0] #! perm
    return x


# run: 0..4
def aliased(k: int) -> int:
    l = [1, 2]
    m = l
    if k == 1:
        m = [3]
    takes(m)
    if k == 1:
        return l[0]
    if k == 2:
        l[0] = 1 #! perm
    return 3


# run: 0..3
def loops(k: int) -> int:
    l = [k, 3, 4]
    r = 0
    for x in l:
        Invariant(r >= 0)
        if k == 1 and x == 3:
            l.append(2) #! perm
        if k == 2 and x == 4:
            l[0] = 3 #! perm
        r += x
    l.append(7)
    return r + len(l)


# run: 0..3
def whiles(k: int) -> int:
    l = [k, 3, 4]
    i = 0
    r = 0
    while i < 3:
        Invariant(Acc(list_pred(l), 1/2) and i >= 0 and len(l) == 3)
        if k == 1:
            l[i] = 3 #! perm
        r += l[i]
        i += 1
    l[0] = r
    return l[0]


def dtakes(d: Dict[int, int]) -> None:
    Requires(dict_pred(d))


# run: 0..4
def dicts(k: int) -> int:
    d = {1: 2, k: 5}
    x = d[1]
    if k == 4:
        return len(d)
    dtakes(d)
    if k == 1:
        x = d[1] #! perm
    if k == 2:
        d[2] = 1 #! perm
    if k == 3:
        if k in d: #! perm
            x = 5
    return x


def stakes(s: Set[int]) -> None:
    Requires(set_pred(s))


# run: 0..3
def sets(k: int) -> int:
    s = {1, k}
    x = len(s)
    stakes(s)
    if k == 1:
        s.add(3) #! perm
    if k == 2:
        x = len(s) #! perm
    if k == 3:
        if 1 in s: #! perm
            x = 3
    return x


class C:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v


def zero(l: List[C]) -> None:
    Requires(Acc(list_pred(l), 1/2) and len(l) == 2)
    Requires(Forall(l, lambda e: (Acc(e.v), [[e in l]])))
    Requires(l[0] is not l[1])
    Ensures(Acc(list_pred(l), 1/2) and len(l) == 2)
    Ensures(Forall(l, lambda e: (Acc(e.v), [[e in l]])))
    Ensures(l[0].v == 0)
    l[0].v = 0
    l[1].v = l[0].v + 2


# run: 0..3
def quant(k: int) -> int:
    a = C(1)
    b = C(2)
    l = [a, b]
    if k == 1:
        l = [b, b]
        zero(l) #! perm
    zero(l)
    if k == 2:
        l.append(a)
    return a.v * 10 + len(l)
