from nagini_contracts.contracts import *
from typing import Optional, List, Tuple, Dict


class Base:
    cnt = 3

    def __init__(self) -> None:
        Ensures(Acc(self.x) and self.x == 1)  # type: ignore
        self.x = 1

    def setx(self, v: int) -> None:
        Requires(Acc(self.x))
        Ensures(Acc(self.x) and self.x == v)
        self.x = v


class Sub(Base):
    cnt2 = 5

    def __init__(self, y: int) -> None:
        Ensures(Acc(self.x) and Acc(self.y))  # type: ignore
        Ensures(self.x == 1 and self.y == y)  # type: ignore
        Base.__init__(self)
        self.y = y

    def setx(self, v: int) -> None:
        Requires(Acc(self.x))
        Ensures(Acc(self.x) and self.x == v)
        self.x = v

    def swap(self) -> None:
        Requires(Acc(self.x) and Acc(self.y))
        Ensures(Acc(self.x) and Acc(self.y))
        Ensures(self.x == Old(self.y) and self.y == Old(self.x))
        self.x, self.y = self.y, self.x


class P:
    def __init__(self) -> None:
        Ensures(Acc(self._v) and self._v == 0)  # type: ignore
        self._v = 0

    @property
    def v(self) -> int:
        Requires(Acc(self._v))
        return self._v * 2

    @v.setter
    def v(self, n: int) -> None:
        Requires(Acc(self._v))
        Ensures(Acc(self._v) and self._v == n + 1)
        self._v = n + 1


# run: 0..2
def inherit(n: int) -> int:
    s = Sub(n)
    s.setx(8)
    s.swap()
    return s.x * 10 + s.y


# run: 0..2
def alias(n: int) -> int:
    s = Sub(n)
    t = s
    t.y = 9
    u = Sub(n)
    u.y = 4
    return s.y * 10 + u.y


# run: 0..2
def prop(n: int) -> int:
    p = P()
    p.v = n
    return p.v


# run: 0..2
def prop_aug(n: int) -> int:
    p = P()
    p.v = n
    p.v += 5
    return p.v


# run: 0..2
def statics(n: int) -> int:
    return Base.cnt * 100 + Sub.cnt2 * 10 + n


# run: bool; bool
def identity(a: bool, b: bool) -> bool:
    x = Base()
    y = Base()
    l = x if a else y
    r = x if b else y
    return l is r


# run: 0..3
def uplevel(n: int) -> int:
    if n > 1:
        b = Sub(n)  # type: Base
    else:
        b = Base()
    b.setx(n * 2)
    if isinstance(b, Sub):
        return 100 + b.x
    return b.x


# run: 0..3
def type_test(n: int) -> bool:
    if n > 1:
        b = Sub(n)  # type: Base
    else:
        b = Base()
    return type(b) == Base
