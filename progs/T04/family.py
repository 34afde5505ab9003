from nagini_contracts.contracts import *


class Base:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.a) and self.a == v)  # type: ignore
        self.a = v

    @Predicate
    def inv(self, lo: int) -> bool:
        return Acc(self.a) and self.a >= lo

    def bump(self, lo: int) -> None:
        Requires(self.inv(lo))
        Ensures(self.inv(lo + 1))
        Unfold(self.inv(lo))
        self.a += 1
        Fold(self.inv(lo + 1))


class Derived(Base):
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.a) and self.a == v and Acc(self.b) and self.b == 5)  # type: ignore
        super().__init__(v)
        self.b = 5

    @Predicate
    def inv(self, lo: int) -> bool:
        return Acc(self.b) and self.b == 5

    def bump(self, lo: int) -> None:
        Requires(self.inv(lo))
        Ensures(self.inv(lo + 1))
        Unfold(self.inv(lo))
        self.a += 2
        self.b = 5
        Fold(self.inv(lo + 1))


# run: 0..4
def base(k: int) -> int:
    o = Base(k)
    if k == 3:
        Fold(o.inv(4)) #! fold
    Fold(o.inv(0))
    if k == 4:
        o.a = 3 #! perm
    o.bump(0)
    Unfold(o.inv(1))
    return o.a


# run: 0..4
def derived(k: int) -> int:
    o = Derived(k)
    if k == 3:
        o.b = 4
        Fold(o.inv(0)) #! fold
    Fold(o.inv(0))
    if k == 4:
        o.b = 3 #! perm
    if k == 2:
        o.a = 3 #! perm
    o.bump(0)
    Unfold(o.inv(1))
    return o.a + o.b


# run: 0..4
def mixed(k: int) -> int:
    o = Base(k)
    if k >= 2:
        o = Derived(k)
        Fold(o.inv(0))
    else:
        Fold(o.inv(0))
    o.bump(0)
    if k == 1:
        Unfold(o.inv(0)) #! perm
    Unfold(o.inv(1))
    return o.a

