from nagini_contracts.contracts import *
from nagini_contracts.obligations import MustTerminate


def ok(n: int) -> int:
    Requires(MustTerminate(1))
    Ensures(Result() == n)
    return n


def unbounded(n: int) -> int:
    Ensures(Result() == n)
    return n


# run: 0..3
def down(k: int) -> int:
    Requires(MustTerminate(2))
    i = k
    while i > 0:
        Invariant(MustTerminate(i))
        i -= 1
    return i


# run: 0..3
def up(k: int) -> int:
    i = 0
    while i < k:
        Invariant(MustTerminate(k - i))
        i += 1
    return i


# run: 0..3
def stuck(k: int) -> int:
    Requires(MustTerminate(2))
    i = 0
    while i < 3:
        Invariant(MustTerminate(4 - i))
        if k == 2:
            break
        if k == 1:
            i += 2
        else:
            i += 1
    return i


# run: 0..2
def notdecreasing(k: int) -> int:
    i = 0
    while i < 3:
        Invariant(MustTerminate(3 - i))
        if k == 1 and i == 1:
            continue #! term@-3
        i += 1
    return i


# run: 0..2
def inside(k: int) -> int:
    i = 0
    while i < 2:
        Invariant(MustTerminate(3 - i))
        i += 1
        if k == 1:
            ok(i)
        if k == 2:
            unbounded(i) #! term
    return i


# run: 0..2
def after(k: int) -> int:
    Requires(MustTerminate(2))
    i = 0
    while i < 2:
        Invariant(MustTerminate(2 - i))
        i += 1
    if k == 1:
        unbounded(k) #! term
    return ok(i)


# run: 0..2
def nested(k: int) -> int:
    Requires(MustTerminate(2))
    i = 0
    n = 0
    while i < k:
        Invariant(MustTerminate(k - i))
        i += 1
        j = 0
        while j < i:
            Invariant(MustTerminate(i - j))
            j += 1
            n += 1
    return i


# run: 0..2
def missing(k: int) -> int:
    Requires(MustTerminate(2))
    i = 0
    if k == 1:
        while i < 2: #! leak
            i += 1
    return i


# run: 0..2
def negative(k: int) -> int:
    i = 0
    while i < 1:
        Invariant(MustTerminate(2 - i))
        i += 1
    if k == 1:
        while i > 1:
            Invariant(MustTerminate(0 - k))
            i -= 1
    return i


# run: 0..3
def overlist(k: int) -> int:
    Requires(MustTerminate(2))
    l = [1, 2, 3]
    s = 0
    for x in l:
        Invariant(MustTerminate(len(l) - len(Previous(x))))
        if k == 2:
            ok(x)
        if k == 3:
            unbounded(x) #! term
    return s


# run: 0..1
def overlist2(k: int) -> int:
    Requires(MustTerminate(2))
    l = [1, 2, 3]
    s = 0
    if k == 1:
        for x in l: #! leak
            s = s + 1
    return k


# run: 0..1
def nopromiseloop(k: int) -> int:
    i = 0
    while i < 2:
        i += 1
        unbounded(i)
    return k
