from nagini_contracts.contracts import *
from nagini_contracts.obligations import *
from nagini_contracts.lock import Lock


class Cell:
    def __init__(self) -> None:
        Requires(MustTerminate(1))
        Ensures(Acc(self.n) and self.n == 0) # type: ignore
        self.n = 0


class CellLock(Lock[Cell]):
    @Predicate
    def invariant(self) -> bool:
        return Acc(self.get_locked().n)


class ObjectLock(Lock[object]):
    @Predicate
    def invariant(self) -> bool:
        return True


def take(l: ObjectLock) -> None:
    Requires(l is not None and WaitLevel() < Level(l))
    Ensures(MustRelease(l))
    l.acquire()


def give(l: ObjectLock) -> None:
    Requires(l is not None)
    Requires(MustRelease(l, 2))
    l.release()


def forget(l: ObjectLock) -> None:
    Requires(l is not None)


def quick(l: ObjectLock) -> None:
    Requires(l is not None)
    Requires(MustTerminate(1))


# run: 0..4
def balanced(k: int) -> int:
    l = ObjectLock(object())
    if k == 1:
        l.acquire()
        l.release()
    if k == 2:
        l.acquire()
        give(l)
    if k == 3:
        l.acquire()
        return k #! leak@def
    if k == 4:
        l.release() #! term
    return k


# run: 0..4
def crossing(k: int) -> int:
    l = ObjectLock(object())
    l.acquire()
    if k == 1:
        forget(l) #! leak
    if k == 2:
        quick(l)
    if k == 3:
        l.acquire() #! term
    l.release()
    if k == 4:
        l.release() #! term
    return k


# run: 0..3
def looping(k: int) -> int:
    l = ObjectLock(object())
    l.acquire()
    i = 0
    while i < k:
        Invariant(MustRelease(l, k - i + 1))
        i += 1
    l.release()
    return i


# run: 0..2
def loopforget(k: int) -> int:
    l = ObjectLock(object())
    i = 0
    if k == 1:
        l.acquire()
        while i < k: #! leak
            i += 1
        l.release()
    return i


# run: 0..2
def inloop(k: int) -> int:
    l = ObjectLock(object())
    i = 0
    while i < 2:
        Invariant(l is not None and WaitLevel() < Level(l))
        l.acquire()
        if k != 2:
            l.release()
        else:
            i = 5
            break
        i += 1
    if k == 2:
        l.release()
    return i


# run: 0..3
def protected(k: int) -> int:
    c = Cell()
    l = CellLock(c)
    if k == 1:
        c.n = 2 #! perm
    l.acquire()
    if k == 2:
        l.release()
        return 2
    c.n = 3
    l.release()
    if k == 3:
        c.n = 4 #! perm
    return k


# run: 0..2
def levels(k: int) -> int:
    a = ObjectLock(object())
    b = ObjectLock(object(), above=a)
    a.acquire()
    if k == 1:
        b.acquire()
        b.release()
    a.release()
    if k == 2:
        b.acquire()
        a.acquire() #! level
        a.release()
        b.release()
    return k
