from nagini_contracts.contracts import *
from typing import Optional


class Node:
    def __init__(self, v: int, n: 'Optional[Node]') -> None:
        Requires(Implies(n is not None, n.list()))
        Ensures(self.list())
        self.val = v  # type: int
        self.next = n  # type: Optional[Node]
        Fold(self.list())

    @Predicate
    def list(self) -> bool:
        return Acc(self.val) and Acc(self.next) and Implies(self.next is not None, self.next.list())

    @Pure
    def size(self) -> int:
        Requires(self.list())
        return Unfolding(self.list(), 1 + (0 if self.next is None else self.next.size()))

    @Pure
    def total(self) -> int:
        Requires(self.list())
        return Unfolding(self.list(), self.val + (0 if self.next is None else self.next.total()))

    def bump(self, d: int) -> None:
        Requires(self.list())
        Ensures(self.list())
        Unfold(self.list())
        self.val += d
        if self.next is not None:
            self.next.bump(d)
        Fold(self.list())

    def append(self, v: int) -> None:
        Requires(self.list())
        Ensures(self.list())
        Unfold(self.list())
        if self.next is None:
            self.next = Node(v, None)
        else:
            self.next.append(v)
        Fold(self.list())


class Cell:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v


@Predicate
def cell(c: Cell, lo: int) -> bool:
    return Acc(c.v) and c.v >= lo


@Predicate
def pair(c: Cell, d: Cell) -> bool:
    return Acc(c.v, 1/2) and Acc(d.v) and c.v <= d.v


def use(c: Cell) -> None:
    Requires(cell(c, 2))


def half(c: Cell) -> None:
    Requires(Acc(cell(c, 2), 1/2))
    Ensures(Acc(cell(c, 2), 1/2))


# run: 0..3
def lists(k: int) -> int:
    n = Node(k, Node(2, None))
    n.append(5)
    n.bump(1)
    return n.total() * 10 + n.size()


# run: 0..3
def folded(k: int) -> int:
    n = Node(k, None)
    if k == 1:
        return n.val #! perm
    Unfold(n.list())
    x = n.val
    if k == 2:
        return n.size() #! perm
    if k == 3:
        n.bump(2) #! perm
    n.next = Node(7, None)
    Fold(n.list())
    return n.total() + x


# run: 0..3
def twice(k: int) -> int:
    n = Node(k, None)
    m = Node(4, n)
    if k == 1:
        return n.total() #! perm
    if k == 2:
        m = Node(3, n) #! perm
    Unfold(m.list())
    if k == 3:
        return n.total()
    x = n.size()
    Fold(m.list())
    return m.total() * 10 + x


# run: 0..4
def args(k: int) -> int:
    c = Cell(k)
    if k >= 2:
        Fold(cell(c, 2))
        if k == 2:
            use(c)
            return 1
        if k == 3:
            Unfold(cell(c, 1)) #! perm
        Unfold(cell(c, 2))
        return c.v
    Fold(cell(c, 0))
    if k == 1:
        use(c) #! perm
    Unfold(cell(c, 0))
    return c.v


# run: 0..4
def value(k: int) -> int:
    c = Cell(k)
    if k < 2:
        Fold(cell(c, 2)) #! fold
    Fold(cell(c, 2))
    half(c)
    if k == 3:
        c.v = 8 #! perm
    Unfold(cell(c, 2))
    c.v += 1
    return c.v


# run: 0..4
def pairs(k: int) -> int:
    c = Cell(k)
    d = Cell(2)
    if k == 3:
        Fold(pair(c, d)) #! fold
    if k == 4:
        Fold(pair(d, d)) #! fold
    Fold(pair(c, d))
    x = c.v
    if k == 1:
        c.v = 0 #! perm
    if k == 2:
        d.v = 9 #! perm
    Unfold(pair(c, d))
    c.v = 5
    d.v = 6
    return c.v * 100 + d.v * 10 + x


# run: 0..4
def fractions(k: int) -> int:
    c = Cell(k + 2)
    Fold(Acc(cell(c, 2), 1/2))
    x = c.v
    if k == 1:
        c.v = 3 #! perm
    if k == 2:
        use(c) #! perm
    half(c)
    Fold(Acc(cell(c, 1), 1/2))
    if k == 3:
        return c.v #! perm
    Unfold(Acc(cell(c, 2), 1/2))
    x += c.v
    if k == 4:
        Unfold(Acc(cell(c, 2), 1/2)) #! perm
    Unfold(Acc(cell(c, 1), 1/2))
    c.v = x
    return c.v


class P:
    def __init__(self, a: int) -> None:
        Ensures(self.inv())
        self.a = a
        Fold(self.inv())

    @Predicate
    def inv(self) -> bool:
        return Acc(self.a)

    def get(self) -> int:
        Requires(self.inv())
        Ensures(self.inv())
        Unfold(self.inv())
        r = self.a
        Fold(self.inv())
        return r


# run: 0..2
def inherited(k: int) -> int:
    p = P(k)
    return p.get()
