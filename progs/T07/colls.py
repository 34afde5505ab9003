from nagini_contracts.contracts import *
from typing import List, Tuple, Optional, Dict, Set


# run: 0..3
def dicts(k: int) -> int:
    d = {1: 10, 2: 20}
    d[k] = 5
    r = len(d) * 1000
    if 1 in d:
        r = r + d[1]
    if 3 in d:
        r = r + d[3] * 100
    return r


# run: 0..3
def dictmiss(k: int) -> int:
    d = {1: 10, 2: 20}
    if k == 0 or k == 3:
        return d[k] #! pre
    return d[k]


# run: 0..3
def dictget(k: int) -> int:
    d = {1: 10, 2: 20}
    x = d.get(k)
    if x is None:
        return -1
    return x


# run: 0..3
def dictvals(k: int) -> int:
    d = {1: 10}
    d[k] = 7
    v = d.values()
    return len(d)


# run: 0..3
def dictbool(k: int) -> bool:
    d = {}  # type: Dict[int, int]
    if k > 1:
        d[k] = 1
    if d:
        return True
    return False


# run: 0..4
def sets(k: int) -> int:
    s = {1, 2}
    s.add(k)
    s.add(1)
    r = len(s) * 10
    if 3 in s:
        r = r + 1
    return r


# run: 1..2
def setremove(k: int) -> int:
    s = {1, 2}
    s.remove(k)
    r = len(s) * 10
    if 1 in s:
        r = r + 1
    return r


# run: 0..2
def setclear(k: int) -> int:
    s = {1, 2}
    if k > 0:
        s.clear()
    return len(s)


# run: 0..2
def setbool(k: int) -> bool:
    s = set()  # type: Set[int]
    if k > 0:
        s.add(k)
    if s:
        return True
    return False


# run: -2..1
def tuples(k: int) -> int:
    t = (1, 2)
    return t[k] * 10 + len(t)


# run: 0..3
def tupcontains(k: int) -> bool:
    t = (1, 3)
    return k in t


# run: 0..3
def tupeq(k: int) -> bool:
    return (1, k) == (1, 2)


# run: 0..2
def tupunpack(k: int) -> int:
    a, b = (k, 5)
    c, (d, e) = (1, (k, 2))
    return a * 1000 + b * 100 + c * 10 + d * e


# run: 0..2
def tupslice(k: int) -> int:
    t = (1, 2, 3)
    u = t[1:]
    v = t[k:2]
    return len(u) * 100 + u[0] * 10 + len(v)


# run: 0..3; 0..3
def tupslices(a: int, b: int) -> int:
    t = (1, 2, 3)
    u = t[a:b]
    return len(u)


# run: 0..9
def seven(k: int) -> int:
    t = (1, 2, 3, 4, 5, 6, k)
    return len(t) * 100 + t[6]


# run: 0..9
def nine(k: int) -> int:
    t = (1, 2, 3, 4, 5, 6, 7, 8, k)
    return len(t) * 100 + t[8] * 10 + t[7]


# run: -2..4; -2..4
def ranges(a: int, b: int) -> int:
    if a > b:
        return -1
    r = range(a, b)
    if len(r) > 0:
        return len(r) * 10 + r[0]
    return 0


# run: -2..4
def rangein(k: int) -> bool:
    return k in range(0, 3)


# run: 1..3
def rangebool(k: int) -> bool:
    r = range(1, k)
    if r:
        return True
    return False


# run: 0..4
def rangeloop(k: int) -> int:
    s = 0
    for i in range(0, k):
        s = s * 10 + i
    return s


# run: bool
def rangebools(b: bool) -> bool:
    return b in range(1, 4)
