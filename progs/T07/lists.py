from nagini_contracts.contracts import *
from typing import List, Tuple, Optional


# run: 0..4
def build(k: int) -> int:
    l = [3, 1, 2]
    l.append(k)
    l[0] = l[3] + 1
    l[2] = 7
    return l[0] * 100 + l[-1] * 10 + len(l) + l[-2]


# run: -5..5
def index(k: int) -> int:
    l = [10, 20, 30]
    if k >= -3 and k < 3:
        return l[k]
    return 0


# run: -3..4
def badindex(k: int) -> int:
    l = [10, 20]
    if k == 2 or k == 3 or k == 4 or k == -3:
        return l[k] #! pre
    return l[k]


# run: -4..4; -4..4
def slices(a: int, b: int) -> int:
    l = [10, 20, 30]
    m = l[a:b]
    n = len(m)
    if n > 0:
        n = n + m[0] + m[-1]
    return n


# run: -2..2
def openslices(a: int) -> int:
    l = [1, 2, 3, 4]
    p = l[a:]
    q = l[:a]
    r = l[:]
    return len(p) * 100 + len(q) * 10 + len(r)


# run: 0..3
def extended(k: int) -> int:
    l = [1, 2]
    m = [k]
    l.extend(m)
    m.append(9)
    n = l + m
    return len(l) * 100 + len(n) * 10 + n[2] + n[4]


# run: -1..3
def repeated(k: int) -> int:
    l = [1, 2]
    m = l * k
    r = len(m)
    if r > 3:
        r = r + m[3] * 10
    return r


# run: 0..3
def reversing(k: int) -> int:
    l = [1, 2, k]
    l.reverse()
    return l[0] * 100 + l[1] * 10 + l[2]


# run: 0..3
def copying(k: int) -> int:
    l = [1, 2, k]
    m = l.copy()
    m.append(4)
    m[0] = 5
    return l[0] * 100 + len(l) * 10 + m[2] + len(m)


# run: 0..4
def inserting(k: int) -> int:
    l = [1, 2, 3]
    l.insert(k, 9)
    return l[0] * 1000 + l[1] * 100 + l[2] * 10 + l[3]


# run: 0..4
def contains(k: int) -> bool:
    l = [1, 3]
    return k in l


# run: 0..4
def notcontains(k: int) -> bool:
    l = [1, 3]
    l.append(k)
    return 2 not in l


# run: 0..3
def equal(k: int) -> bool:
    return [1, 2] == [1, k]


# run: 0..2
def nested(k: int) -> int:
    a = [1]
    l = [a, [2, 3]]
    a.append(k)
    return len(l[0]) * 10 + l[0][1] + len(l)


# run: 0..3
def comp(k: int) -> int:
    l = [x * 2 for x in [1, 2, k]]
    return l[0] + l[2] * 10 + len(l) * 100


# run: 0..3
def empty(k: int) -> int:
    l = []  # type: List[int]
    if k > 1:
        l.append(k)
    if l:
        return l[0]
    return -1


# run: 0..3
def summed(k: int) -> int:
    return sum([k, 2, 3])


# run: -2..3; -2..3
def minmax(a: int, b: int) -> int:
    return max(a, b) * 10 + min(a, b)


# run: -3..3
def absolute(a: int) -> int:
    return abs(a)
