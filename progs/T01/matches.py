from nagini_contracts.contracts import *
from typing import Union


class P:
    pass


class Q(P):
    pass


class R:
    pass


# run: -1..4
def match_int(n: int) -> int:
    match n:
        case 0:
            return 10
        case 1 | 2:
            return 20
        case x if x == 3:
            return 30 + x
        case _:
            return 40


# run: 0..3; bool
def match_fall(n: int, b: bool) -> int:
    t = 1
    match n:
        case 0 if b:
            t = 2
        case 0:
            t = 3
        case 1:
            t = 4
    return t * 10


# run: 0..3
def match_class(n: int) -> int:
    o = P()  # type: Union[P, R]
    if n == 1:
        o = Q()
    elif n == 2:
        o = R()
    match o:
        case Q():
            return 1
        case P():
            return 2
        case R():
            return 3
    return 4


# run: bool
def match_bool(b: bool) -> int:
    match b:
        case True:
            return 1
        case False:
            return 2


# run: 0..3
def match_loop(n: int) -> int:
    i = 0
    t = 0
    while i < 4:
        Invariant(i >= 0)
        i += 1
        match i:
            case 1:
                continue
            case 3 if n == 1:
                break
            case k:
                t = t * 10 + k
    return t
