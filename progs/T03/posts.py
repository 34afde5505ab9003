from nagini_contracts.contracts import *
from typing import List, Optional, Tuple, Dict, Set


class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v))  # type: ignore
        Ensures(self.v == v)  # type: ignore
        self.v = v


# run: -1..3
def single(n: int) -> int:
    Ensures(Result() > 1)
    return n


# run: -1..3
def several(n: int) -> int:
    Ensures(Result() >= n)
    Ensures(Result() != 2)
    Ensures(Result() < 4)
    if n == 0:
        return -1
    if n == 3:
        return n + 1
    return n


# run: 0..3
def early(n: int) -> int:
    Ensures(Result() == 7)
    if n == 1:
        return 7
    i = 0
    while i < 4:
        Invariant(i >= 0)
        if i == n:
            return 5 + i
        i += 1
    return 7


# run: 0..4
def old_param(n: int) -> int:
    Ensures(Result() == n + 1)
    n = n + 1
    if n == 3:
        n = 4
    return n


# run: 0..3
def implied(n: int) -> int:
    Ensures(Implies(n > 1, Result() == 2))
    Ensures(Implies(n <= 1, Result() == n + 1))
    return 2


# run: 0..3
def implicit_none(n: int) -> Optional[int]:
    Ensures(Implies(n > 1, Result() is None))
    Ensures(Implies(n <= 1, Result() is not None))
    if n == 0:
        return 1
    if n == 2:
        return 3


class C:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.v) and Acc(self.w))  # type: ignore
        Ensures(self.v == v)  # type: ignore
        Ensures(self.w != 4)  # type: ignore
        self.v = v
        self.w = v + 1
        if v == 2:
            self.v = 1

    def inc(self, n: int) -> None:
        Requires(Acc(self.v) and Acc(self.w))
        Ensures(Acc(self.v) and Acc(self.w))
        Ensures(self.v == Old(self.v) + n)
        Ensures(self.w == Old(self.w))
        Ensures(Old(self.v) < 5)
        self.v += n
        if n == 2:
            self.w += 1

    def swap(self) -> None:
        Requires(Acc(self.v) and Acc(self.w))
        Ensures(Acc(self.v) and Acc(self.w))
        Ensures(self.v == Old(self.w) and self.w == Old(self.v))
        t = self.v
        self.v = self.w
        self.w = t

    def bad_swap(self) -> None:
        Requires(Acc(self.v) and Acc(self.w))
        Ensures(Acc(self.v) and Acc(self.w))
        Ensures(self.v == Old(self.w))
        Ensures(self.w == Old(self.v))
        self.v = self.w
        self.w = self.v

    def raises(self, n: int) -> int:
        Requires(Acc(self.v))
        Ensures(Acc(self.v))
        Ensures(self.v == n)
        Ensures(Result() == Old(self.v))
        Exsures(E1, Acc(self.v))
        Exsures(E1, self.v == Old(self.v) + 1)
        r = self.v
        if n == 1:
            self.v += 1
            raise E1()
        if n == 2:
            raise E2()
        self.v = n
        if n == 3:
            raise E3(1)
        return r


# run: 0..4
def ctor(n: int) -> int:
    c = C(n)
    return c.v


# run: 0..1; 0..5
def inc(v: int, n: int) -> int:
    c = C(v)
    c.inc(n)
    c.inc(n)
    return c.v * 10 + c.w


# run: 0..1
def swap(v: int) -> int:
    c = C(v)
    c.swap()
    return c.v * 10 + c.w


# run: 0..1
def bad_swap(v: int) -> int:
    c = C(v)
    c.bad_swap()
    return c.v * 10 + c.w


# run: 0..4
def raising(n: int) -> int:
    c = C(0)
    r = 0
    try:
        r = c.raises(n)
    except E2:
        return 100 + c.v
    except E1:
        return 200 + c.v
    except E3 as e:
        return 300 + c.v
    return r * 10 + c.v


# run: 0..4
def undeclared(n: int) -> int:
    Exsures(E2, n > 2)
    if n == 1:
        raise E1()
    if n == 2:
        raise E2()
    if n == 3:
        raise E2()
    return n


# run: 0..4
def propagated(n: int) -> int:
    Exsures(E1, n > 2)
    undeclared_callee(n)
    return n


def undeclared_callee(n: int) -> int:
    Ensures(n < 2)
    Exsures(E1, n >= 2)
    Exsures(E2, n == 3)
    if n == 2:
        raise E1()
    if n >= 3:
        raise E2()
    return n


# run: 0..4
def raised_value(n: int) -> int:
    Exsures(E3, Acc(RaisedException().v))
    Exsures(E3, RaisedException().v == n)
    if n == 1:
        raise E3(1)
    if n == 2:
        raise E3(3)
    return n


# run: 0..3
def catches_some(n: int) -> int:
    Ensures(Result() != 2)
    Exsures(E1, n == 3)
    try:
        if n == 1:
            raise E2()
        if n == 2:
            raise E3(2)
        if n == 3:
            raise E1()
    except E2:
        return 1
    except E3:
        return 2
    return 0


# run: 0..3
def finally_changes(n: int) -> int:
    Ensures(Result() == n)
    r = n
    try:
        if n == 2:
            return n
        r = n + 1
    finally:
        r -= 1
    return r


# run: 0..3
def finally_overrides(n: int) -> int:
    Ensures(Result() < 3)
    try:
        if n == 1:
            raise E1()
        return n
    finally:
        if n > 0:
            return n + 1


# run: 0..2
def tuple_post(n: int) -> Tuple[int, int]:
    Ensures(Result()[0] < Result()[1])
    Ensures(Result()[0] == n)
    return n, 2 - n


# run: 0..2
def list_post(n: int) -> List[int]:
    Ensures(list_pred(Result()))
    Ensures(len(Result()) == 2)
    Ensures(Result()[1] > Result()[0])
    r = [1]
    if n < 2:
        r.append(n + 1)
    return r


# run: 0..2
def list_old(n: int) -> int:
    l = [1, 2]
    list_change(l, n)
    return l[0]


def list_change(l: List[int], n: int) -> None:
    Requires(list_pred(l))
    Requires(len(l) == 2)
    Ensures(list_pred(l))
    Ensures(len(l) == 2)
    Ensures(l[0] == Old(l[1]) + n)
    Ensures(l[1] == Old(l[1]))
    l[0] = l[1] + n
    if n == 2:
        l[1] = 0


@Pure
def pure_post(n: int) -> int:
    Ensures(Result() >= n)
    Ensures(Implies(n == 2, Result() == 4))
    return n * n if n != 2 else n + 1


# run: -2..3
def uses_pure_post(n: int) -> int:
    return pure_post(n)


# run: -1..3
def void_post(n: int) -> None:
    Ensures(n > 0)
    x = n


# run: 0..3
def in_post_div(n: int) -> int:
    Requires(n > 0)
    Ensures(6 // Result() < 5)
    return n - 1


# run: 0..2; 0..2
def lambda_post(n: int, m: int) -> int:
    Ensures(ResultT(int) >= n and ResultT(int) >= m)
    return n if n > m else m - 1


# run: 0..2
def dict_post(n: int) -> Dict[int, int]:
    Ensures(dict_pred(Result()))
    Ensures(1 in Result())
    Ensures(Result()[1] == n)
    d = {1: 1}  # type: Dict[int, int]
    if n == 2:
        d[1] = 2
    return d


# run: 0..2
def set_post(n: int) -> Set[int]:
    Ensures(set_pred(Result()))
    Ensures(1 in Result() and n in Result())
    s = {1, 3}
    if n == 2:
        s.add(n)
    return s
