from nagini_contracts.contracts import *
from typing import Optional, List, Tuple, Dict, Set


class P:
    pass


class Q(P):
    def __init__(self, v: bool) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v


# run: 0..9
def of_object(k: int) -> int:
    o = None  # type: Optional[object]
    if k == 0:
        o = ()
    elif k == 1:
        o = P()
    elif k == 2:
        o = (1, 2)
    elif k == 3:
        o = Q(False)
    elif k == 4:
        o = range(0, 2)
    elif k == 5:
        o = range(3, 3)
    elif k == 6:
        o = (0,)
    if o:
        return 1
    return 0


# run: 0..2
def of_class(k: int) -> int:
    o = None  # type: Optional[P]
    if k == 0:
        o = P()
    elif k == 1:
        o = Q(True)
    if not o:
        return 1
    return 0


# run: 0..2; 0..1
def of_bool(k: int, j: int) -> int:
    o = None  # type: Optional[P]
    if k == 0:
        o = P()
    elif k == 1:
        o = Q(True)
    p = None  # type: Optional[P]
    if j == 0:
        p = P()
    if o and p:
        return 1
    if o or p:
        return 2
    return 3


# run: bool
def of_typed(b: bool) -> int:
    i = 0  # type: int
    s = ''
    l = []  # type: List[int]
    d = {}  # type: Dict[int, int]
    t = (1,)
    r = 0
    if i:
        r += 1
    if s:
        r += 2
    if l:
        r += 4
    if d:
        r += 8
    if t:
        r += 16
    if b:
        l.append(1)
        d[1] = 2
        s = 'a'
    if l:
        r += 32
    if d:
        r += 64
    if s:
        r += 128
    return r
