from nagini_contracts.contracts import *
from typing import List, Set, Dict, Tuple


# run: 0..4; 0..3
def for_list(n: int, k: int) -> int:
    l = [0, 1, 2]
    t = 0
    for x in l:
        Invariant(Acc(list_pred(l), 1/2))
        if x == k:
            continue
        if x == n:
            break
        t = t * 10 + x + 1
    else:
        t = t * 10 + 9
    return t


# run: 0..3; 0..4
def for_range(a: int, b: int) -> int:
    Requires(a <= b)
    t = 1
    for i in range(a, b):
        Invariant(True)
        t = t * 10 + i
    return t


# run: 0..3
def for_nested(n: int) -> int:
    l = [1, 2]
    t = 0
    for x in l:
        Invariant(Acc(list_pred(l), 1/2))
        k = [1, 2]
        for y in k:
            Invariant(Acc(list_pred(k), 1/4))
            if x + y == n:
                break
            t = t * 10 + x + y
        else:
            t += 1
    return t


# run: 0..3
def for_return(n: int) -> int:
    l = [4, 5, 6]
    i = 0
    for x in l:
        Invariant(Acc(list_pred(l), 1/2))
        Invariant(i >= 0)
        if i == n:
            return x
        i += 1
    return -1


# run: 0..2
def for_empty(n: int) -> int:
    l = [] # type: List[int]
    if n == 1:
        l = [8]
    r = 3
    for x in l:
        Invariant(Acc(list_pred(l), 1/2))
        r = x
    return r


# run: 0..3
def for_prev(n: int) -> int:
    Ensures(Result() == 6 or Result() == 3)
    l = [1, 2, 3]
    c = 0
    s = 0
    for x in l:
        Invariant(Acc(list_pred(l), 1/2))
        Invariant(c == len(Previous(x)))
        Invariant(s <= 6)
        c += 1
        s += x
    if n == 2:
        return c
    return s


# run: 0..2
def for_tuple_target(n: int) -> int:
    l = [(1, 2), (3, 4)]
    t = 0
    for a, b in l:
        Invariant(Acc(list_pred(l), 1/2))
        if a == n:
            continue
        t = t * 100 + a * 10 + b
    return t


# run: 0..3
def for_mutate_other(n: int) -> int:
    l = [1, 2, 3]
    o = [] # type: List[int]
    for x in l:
        Invariant(Acc(list_pred(l), 1/2))
        Invariant(Acc(list_pred(o)))
        if x != n:
            o.append(x * 2)
    return len(o) * 10 + (o[0] if len(o) > 0 else 0)


# run: 0..1
def for_dict(n: int) -> int:
    d = {1: 5, 2: 7}
    t = 0
    for k in d:
        Invariant(Acc(dict_pred(d), 1/2))
        t += k
    return t
