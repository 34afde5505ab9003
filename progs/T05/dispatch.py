from nagini_contracts.contracts import *
from typing import Optional, List, Tuple, cast


class A:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v

    def get(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        return self.v

    def twice(self, k: int = 2) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        return self.get() * k

    def name(self) -> int:
        return 1

    @staticmethod
    def s(x: int, y: int = 5) -> int:
        return x * 10 + y

    @property
    def prop(self) -> int:
        Requires(Acc(self.v))
        return self.v + 100


class B(A):
    def __init__(self, v: int, w: int = 7) -> None:
        Ensures(Acc(self.v) and Acc(self.w))  # type: ignore
        Ensures(self.v == v + 1 and self.w == w)  # type: ignore
        super().__init__(v + 1)
        self.w = w

    def name(self) -> int:
        return 2

    def both(self) -> int:
        Requires(Acc(self.v) and Acc(self.w))
        Ensures(Acc(self.v) and Acc(self.w))
        return self.get() * 10 + self.w

    @staticmethod
    def s(x: int, y: int = 5) -> int:
        return x * 100 + y


class C(B):
    def name(self) -> int:
        return super().name() + 10

    def get(self) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        return super().get() + 1000


class D(C):
    pass


class E(C):
    def name(self) -> int:
        x = super().name()
        return x + 100


# run: 0..3; 0..4
def names(k: int, v: int) -> int:
    o = None  # type: Optional[A]
    if k == 0:
        o = A(v)
    elif k == 1:
        o = B(v)
    elif k == 2:
        o = C(v, 3)
    elif v > 2:
        o = D(v)
    else:
        o = E(v, w=4)
    assert o is not None
    return o.name()


# run: 0..3
def gets(v: int) -> int:
    a = A(v)
    b = B(v)
    c = C(v)
    return a.get() + 10 * b.get() + 100 * c.get()


# run: 0..3
def through_inherited(v: int) -> int:
    a = A(v)
    c = D(v, 9)
    return a.twice() + c.twice(3) + c.both() * 1000


# run: 0..3
def statics(v: int) -> int:
    return A.s(v) + B.s(v, 1) * 1000


# run: 0..3
def static_via_instance(v: int) -> int:
    b = C(v)
    a = A(v)
    return b.s(v) + a.s(v, 3) * 10000


# run: 0..3
def props(v: int) -> int:
    a = A(v)
    b = E(v)
    return a.prop + b.prop * 1000


# run: 0..4; 0..4
def tests(k: int, q: int) -> bool:
    o = None  # type: Optional[object]
    if k == 0:
        o = A(1)
    elif k == 1:
        o = B(1)
    elif k == 2:
        o = D(1)
    elif k == 3:
        o = E(1)
    if q == 0:
        return isinstance(o, A)
    if q == 1:
        return isinstance(o, B)
    if q == 2:
        return isinstance(o, C)
    if q == 3:
        return isinstance(o, D)
    return isinstance(o, E)


# run: 0..4; 0..5
def basic_tests(k: int, q: int) -> bool:
    o = None  # type: Optional[object]
    if k == 0:
        o = 5
    elif k == 1:
        o = True
    elif k == 2:
        o = 'a'
    elif k == 3:
        o = (1, 2)
    if q == 0:
        return isinstance(o, int)
    if q == 1:
        return isinstance(o, bool)
    if q == 2:
        return isinstance(o, str)
    if q == 3:
        return isinstance(o, tuple)
    if q == 4:
        return isinstance(o, object)
    return isinstance(o, A)


# run: 0..3; bool
def tuple_test(k: int, b: bool) -> bool:
    o = None  # type: Optional[object]
    if k == 0:
        o = A(1)
    elif k == 1:
        o = C(1)
    elif k == 2:
        o = 4
    if b:
        return isinstance(o, int) or isinstance(o, C)
    return isinstance(o, bool) or isinstance(o, A)


class M:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and self.v == v)  # type: ignore
        self.v = v

    @classmethod
    def make(cls, x: int) -> 'M':
        Ensures(Acc(Result().v))
        Ensures(isinstance(Result(), cls))
        return cls(x)

    @classmethod
    def lit(cls, x: int) -> 'M':
        Ensures(Acc(Result().v))
        return M(x + 1)

    def which(self) -> int:
        return 1


class N(M):
    def which(self) -> int:
        return 2


# run: 0..3
def classm(v: int) -> int:
    a = M.make(v)
    b = N.make(v + 1)
    return a.v + b.v * 10 + 100 * a.which() + 1000 * b.which()


# run: 0..3
def classm_lit(v: int) -> int:
    b = N.lit(v + 1)
    return b.v + 10 * b.which()


# run: bool
def cls_value(c: bool) -> int:
    k = M(1) if c else N(2)
    return k.v * 10 + k.which() + (100 if type(k) == M else 0) + (1000 if isinstance(k, M) else 0)
