from nagini_contracts.contracts import *


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


class D(Exception):
    pass


# run: 0..5
def three(n: int) -> int:
    Requires(n >= 0)
    Ensures(n == 0 or n > 4)
    Exsures(A, n == 1)
    Exsures(C, n == 2)
    Exsures(D, n != 3)
    if n == 1 or n == 4:
        raise A()
    if n == 2:
        raise C()
    if n == 3:
        raise D()
    return n


# run: 0..5
def sub_and_super(n: int) -> int:
    Ensures(n == 0)
    Exsures(B, n == 1)
    Exsures(A, n < 4)
    Exsures(C, n > 2)
    if n == 1 or n == 2:
        raise B()
    if n == 3:
        raise A()
    if n == 4:
        raise C()
    if n == 5:
        raise A()
    return n


# run: 0..5
def super_first(n: int) -> int:
    Ensures(n == 0)
    Exsures(A, n < 4)
    Exsures(B, n == 1)
    Exsures(D, True)
    if n == 1 or n == 2:
        raise B()
    if n == 3:
        raise A()
    if n == 4:
        raise D()
    if n == 5:
        raise A()
    return n


# run: 0..4
def four(n: int) -> int:
    Exsures(A, n != 1)
    Exsures(B, n != 1 and n != 4)
    Exsures(C, n != 2)
    Exsures(D, n != 3)
    if n == 1:
        raise A()
    if n == 2:
        raise C()
    if n == 3:
        raise D()
    if n == 4:
        raise B()
    return n


# run: 0..4
def several_of_one(n: int) -> int:
    Exsures(A, n != 1)
    Exsures(A, n != 2)
    Exsures(C, True)
    Exsures(A, n != 3)
    if n > 0:
        raise A()
    return n


# run: 0..4
def undeclared(n: int) -> int:
    Exsures(A, True)
    Exsures(D, True)
    if n == 1:
        raise B()
    if n == 2:
        raise C()
    if n == 3:
        raise D()
    return n


# run: 0..5
def passed_on(n: int) -> int:
    Requires(n >= 0)
    Exsures(A, n == 1)
    Exsures(D, n == 7)
    Exsures(C, False)
    try:
        return inner(n)
    except C:
        return 100


def inner(n: int) -> int:
    Exsures(A, n == 1)
    Exsures(C, n == 2)
    Exsures(D, n > 2)
    if n == 1:
        raise A()
    if n == 2:
        raise C()
    if n > 2:
        raise D()
    return n
