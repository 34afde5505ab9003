from nagini_contracts.contracts import *


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


def thrower(n: int) -> int:
    Ensures(n != 1 and n != 2 and n != 3)
    Ensures(Result() == n + 10)
    Exsures(A, n == 1 or n == 2)
    Exsures(C, n == 3)
    if n == 1:
        raise A()
    if n == 2:
        raise B()
    if n == 3:
        raise C()
    return n + 10


# run: 0..4
def simple(n: int) -> int:
    t = 1
    try:
        t = t * 10 + 2
        t = thrower(n)
        t = t * 10 + 3
    except B:
        t = t * 10 + 4
    except A:
        t = t * 10 + 5
    except C as e:
        t = t * 10 + 6
    return t * 10 + 7


# run: 0..4
def order(n: int) -> int:
    t = 1
    try:
        t = thrower(n)
    except A:
        t = t * 10 + 4
    except B:
        t = t * 10 + 5
    except Exception:
        t = t * 10 + 6
    return t


# run: 0..4
def try_else_finally(n: int) -> int:
    t = 1
    try:
        thrower(n)
        t = t * 10 + 2
    except A:
        t = t * 10 + 3
    except C:
        t = t * 10 + 4
    else:
        t = t * 10 + 5
    finally:
        t = t * 10 + 6
    return t


# run: 0..4
def uncaught(n: int) -> int:
    Exsures(C, n == 3)
    t = 1
    try:
        thrower(n)
        t += 1
    except A:
        t += 5
    finally:
        t += 10
    return t


# run: 0..4
def finally_return(n: int) -> int:
    t = 1
    try:
        if n == 4:
            return 5
        thrower(n)
        t = 2
    except A:
        return 7
    finally:
        t = t + 20
        if n == 3 or n == 4:
            return t
    return t * 100


# run: 0..4
def raise_in_handler(n: int) -> int:
    Exsures(C, n == 1)
    t = 0
    try:
        try:
            thrower(n)
        except B:
            t = 3
            raise A()
        except A:
            t = 4
            raise C()
        finally:
            t = t + 10
    except A:
        t = t + 100
    except C:
        t = t + 1000
        if n == 1:
            raise C()
    return t


# run: 0..4
def nested_try(n: int) -> int:
    t = 0
    try:
        try:
            thrower(n)
            t += 1
        except C:
            t += 2
        finally:
            t += 10
    except A:
        t += 100
    else:
        t += 200
    finally:
        t += 1000
    return t


# run: 0..4
def loop_try(n: int) -> int:
    t = 0
    i = 0
    while i < 5:
        Invariant(i >= 0)
        i += 1
        try:
            if i == n:
                continue
            thrower(i)
            t = t * 10 + i
        except B:
            break
        except A:
            t = t * 10 + 8
        finally:
            t = t * 10 + 9
    else:
        t = t * 10 + 7
    return t


# run: 0..4
def break_in_finally_try(n: int) -> int:
    t = 0
    i = 0
    while i < 4:
        Invariant(i >= 0)
        try:
            i += 1
            if i == n:
                break
            t += i
        finally:
            t += 10
    return t


# run: 0..4
def return_from_loop_try(n: int) -> int:
    t = 0
    i = 0
    while i < 4:
        Invariant(i >= 0)
        try:
            i += 1
            if i == n:
                return t + 500
            t += i
        finally:
            t += 10
    return t


# run: 0..3
def exc_var(n: int) -> int:
    try:
        if n == 1:
            raise B()
        if n == 2:
            raise A()
    except A as e:
        if isinstance(e, B):
            return 5
        return 6
    return 7


# run: 0..3
def exc_in_else(n: int) -> int:
    Exsures(C, n == 1)
    t = 0
    try:
        t = 1
    except C:
        t = 50
    else:
        if n == 1:
            raise C()
        t += 2
    finally:
        t += 10
    return t


# run: 0..4
def exc_while_else(n: int) -> int:
    t = 0
    i = 0
    try:
        while i < 3:
            Invariant(i >= 0)
            i += 1
            if i == n:
                raise B()
            t += i
        else:
            t += 40
    except A:
        t += 100
    return t


# run: 0..4
def finally_raise(n: int) -> int:
    Ensures(n == 0 or n == 4)
    Exsures(C, n == 1 or n == 2 or n == 3)
    try:
        thrower(n)
    finally:
        if n == 1:
            raise C()
        if n == 2:
            raise C()
    return 3
