from nagini_contracts.contracts import *


class Cnt:
    def __init__(self) -> None:
        Ensures(Acc(self.t) and self.t == 0)  # type: ignore
        self.t = 0  # type: int

    def tick(self, k: int, r: bool) -> bool:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == Old(self.t) * 10 + k)
        Ensures(Result() == r)
        self.t = self.t * 10 + k
        return r

    def val(self, k: int, r: int) -> int:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == Old(self.t) * 10 + k)
        Ensures(Result() == r)
        self.t = self.t * 10 + k
        return r


# run: bool; bool; bool
def shortcircuit(a: bool, b: bool, c: bool) -> int:
    x = Cnt()
    r = 0
    if x.tick(1, a) and x.tick(2, b) or x.tick(3, c):
        r = 1
    return x.t * 10 + r


# run: bool; bool; bool
def shortcircuit2(a: bool, b: bool, c: bool) -> int:
    x = Cnt()
    r = 0
    if (x.tick(1, a) or x.tick(2, b)) and not x.tick(3, c):
        r = 1
    return x.t * 10 + r


# run: bool; bool
def ternary(a: bool, b: bool) -> int:
    x = Cnt()
    r = x.val(1, 5) if x.tick(2, a) else (x.val(3, 6) if x.tick(4, b) else x.val(5, 7))
    return x.t * 10 + r


# run: 0..3; 0..3
def arg_order(a: int, b: int) -> int:
    x = Cnt()
    r = x.val(1, a) + x.val(2, b) * x.val(3, 2)
    y = x.val(4, a) - x.val(5, b)
    return x.t + r * 100000 + y * 10000000


# run: bool; bool
def boolop_value(a: bool, b: bool) -> bool:
    x = Cnt()
    r = x.tick(1, a) and x.tick(2, b)
    s = x.tick(3, a) or x.tick(4, b)
    return (r and not s) or x.t == 1234


# run: 0..3
def compare_chain(a: int) -> int:
    x = Cnt()
    r = 0
    if x.val(1, 0) < x.val(2, a) <= x.val(3, 2):
        r = 1
    return r


# run: 0..2
def call_in_stmt(n: int) -> int:
    x = Cnt()
    l = [x.val(1, 4), x.val(2, 5), x.val(3, 6)]
    r = l[x.val(4, n)]
    l[x.val(5, n)] = x.val(6, 9)
    return r * 10 + l[n]
