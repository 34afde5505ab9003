from typing import List
from nagini_contracts.contracts import *


class A:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.B_c) and self.B_c == v)  # type: ignore
        self.B_c = v

    def m(self) -> int:
        Ensures(Result() == 1)
        return 1

    @staticmethod
    def s_0(x: int) -> int:
        Ensures(Result() == x + 1)
        return x + 1


class A_B:
    def __init__(self, v: int) -> None:
        Ensures(Acc(self.c) and self.c == v)  # type: ignore
        self.c = v

    def m(self) -> int:
        Ensures(Result() == 2)
        return 2


class A_m:
    def __init__(self) -> None:
        Ensures(True)


def A_m_0() -> int:
    Ensures(Result() == 3)
    return 3


def A_s(x: int) -> int:
    Ensures(Result() == x + 2)
    return x + 2


# run: 0..2
def clash_fields(i: int) -> int:
    a = A(i)
    b = A_B(i + 5)
    a.B_c = a.B_c + 1
    return a.B_c * 100 + b.c


# run: 0..2
def clash_methods(i: int) -> int:
    a = A(i)
    b = A_B(i)
    return a.m() + 10 * b.m() + 100 * A_m_0() + 1000 * A.s_0(i) + 10000 * A_s(i)


# run: 0..3
def x_0(x_0: int) -> int:
    x = x_0 + 1
    x_1 = x + 10
    x_0_0 = x_1 + x_0
    return x * 10000 + x_1 * 100 + x_0_0


# run: 0..3
def res(res: int) -> int:
    result = res + 1
    _res = result * 2
    err = _res + 1
    _err = err + result
    return _err * 100 + err * 10 + _res


# run: 0..3
def keywords(n: int) -> int:
    method = n
    field = method + 1
    function = field + 2
    requires = function + 3
    ensures = requires + 4
    var = ensures
    inhale = var + field
    Ref = inhale
    Int = Ref + 1
    Seq = Int
    forall = Seq + 1
    old = forall
    label = old + 1
    goto = label
    this = goto
    perm = this + 1
    unique = perm
    null = unique
    return null


# run: 0..3
def end(end: int) -> int:
    __end = end + 1
    post_loop = __end
    i = 0
    while i < 3:
        Invariant(0 <= i and i <= 3)
        Invariant(post_loop == __end + i)
        i += 1
        post_loop += 1
        if post_loop > 4:
            break
    loop_end = post_loop
    return loop_end * 10 + i


# run: 0..3
def nested(i: int) -> int:
    try:
        if i == 1:
            raise Exception()
        try:
            if i == 2:
                raise Exception()
            i_0 = 5
        except Exception as e:
            i_0 = 6
    except Exception as e:
        i_0 = 7
    finally:
        i_1 = 8
    return i_0 * 10 + i_1


@Pure
def int___add__(int___add__: int) -> int:
    return int___add__ + 1


@Pure
def typeof(issubtype: int) -> int:
    return issubtype + 7


# run: 0..3
def builtin_names(n: int) -> int:
    list_acc = [n]
    PyType = int___add__(n)
    bool___box = typeof(PyType)
    return list_acc[0] + PyType * 10 + bool___box * 100


@Predicate
def P(a: A) -> bool:
    return Acc(a.B_c)


@Predicate
def P_0(a: A_B) -> bool:
    return Acc(a.c)


def use(a: A, b: A_B) -> int:
    Requires(P(a) and P_0(b))
    Ensures(P(a) and P_0(b))
    Unfold(P(a))
    Unfold(P_0(b))
    r = a.B_c * 10 + b.c
    Fold(P(a))
    Fold(P_0(b))
    return r


# run: 0..2
def predicates(i: int) -> int:
    a = A(i)
    b = A_B(i + 1)
    Fold(P(a))
    Fold(P_0(b))
    x = use(a, b)
    return 0


# run: 0..3
def quants(n: int) -> int:
    l = [1, 2, n]
    i = 7
    Assert(Forall(int, lambda i: Implies(i >= 0 and i < 3, l[i] < 5)))
    Assert(Forall(int, lambda i: (Implies(i >= 0 and i < 2, Exists(int, lambda j: j == i + 1)))))
    return i


# run: 0..3
def listcomp(n: int) -> int:
    n_0 = [n, n + 1]
    n_1 = (n, n_0[0])
    n_2, n_3 = n_1
    for n_4 in n_0:
        Invariant(True)
        n_2 = n_4
    return n_2 * 10 + n_3
