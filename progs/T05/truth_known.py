from nagini_contracts.contracts import *
from typing import Optional


class L:
    def __init__(self, n: int) -> None:
        Ensures(Acc(self.n) and self.n == n)  # type: ignore
        self.n = n

    @Pure
    def __len__(self) -> int:
        Requires(Acc(self.n))
        return self.n


class P:
    pass


class Falsy(P):
    @Pure
    def __bool__(self) -> bool:
        return False


# run: 0..2
def by_len(n: int) -> int:
    l = L(n)
    if l:
        return 1
    return 0


# run: bool
def by_subclass(b: bool) -> int:
    p = P()
    if b:
        p = Falsy()
    if p:
        return 1
    return 0


# run: 0..1
def by_bool(n: int) -> int:
    p = Falsy()
    if p:
        return 1
    return 0
