from nagini_contracts.contracts import *


class C:
    def __init__(self) -> None:
        Ensures(Acc(self.x) and self.x == 0 and MaySet(self, 'y'))  # type: ignore
        self.x = 0
        if self.x == 5:
            self.y = 1

    def set_y(self, v: int) -> None:
        Requires(MaySet(self, 'y'))
        Ensures(Acc(self.y) and self.y == v)
        self.y = v

    def make_y(self, v: int) -> None:
        Requires(MayCreate(self, 'y'))
        Ensures(Acc(self.y) and self.y == v)
        self.y = v


class D:
    def __init__(self, b: bool) -> None:
        Ensures(Implies(b, Acc(self.p)))  # type: ignore
        Ensures(Implies(not b, MayCreate(self, 'p')))  # type: ignore
        if b:
            self.p = 4


def give(c: C) -> None:
    Requires(MaySet(c, 'y'))


# run: 0..4
def sets(k: int) -> int:
    c = C()
    if k == 1:
        return c.y #! perm
    if k == 2:
        give(c)
        c.y = 3 #! perm
    if k == 3:
        c.y = 8
        c.make_y(2) #! perm
    c.set_y(k)
    c.y += 1
    return c.y


# run: bool; 0..2
def creates(b: bool, k: int) -> int:
    d = D(b)
    if not b:
        if k == 1:
            return d.p #! perm
        d.p = 3
    if k == 2:
        d.p = 9
    return d.p


# run: 0..2
def twice(k: int) -> int:
    c = C()
    c.y = 1
    if k == 1:
        c.set_y(3)
    give(c)
    if k == 2:
        return c.y #! perm
    return c.x
