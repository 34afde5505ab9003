from nagini_contracts.contracts import *
from nagini_contracts.obligations import MustTerminate, MustRelease
from nagini_contracts.lock import Lock


class ObjectLock(Lock[object]):
    @Predicate
    def invariant(self) -> bool:
        return True


# run: 0..3
def held(k: int) -> int:
    l = ObjectLock(object())
    l.acquire()
    i = 0
    while i < 3:
        Invariant(MustRelease(l, 4 - i))
        if k == 1 and i == 1:
            continue #! term@-2
        i += 1
    l.release()
    return i


# run: 0..2
def grows(k: int) -> int:
    l = ObjectLock(object())
    l.acquire()
    i = 0
    while i < 2:
        Invariant(MustRelease(l, 3 - i if k != 1 else i + 1))
        if k == 1:
            i += 1 #! term@-2
        else:
            i += 1
    l.release()
    return i


# run: 0..2
def body(k: int) -> int:
    i = 0
    while i < 2:
        Invariant(True)
        l = ObjectLock(object())
        l.acquire()
        if k == 0:
            l.release()
            i += 1
        else:
            i += 1 #! leak@-8
    return i
