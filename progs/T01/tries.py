from nagini_contracts.contracts import *


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


def thrower(n: int) -> int:
    Ensures(n != 1 and n != 2 and n != 3)
    Ensures(Result() == n + 10)
    Exsures(A, n == 1 or n == 2)
    Exsures(C, n == 3)
    if n == 1:
        raise A()
    if n == 2:
        raise B()
    if n == 3:
        raise C()
    return n + 10


# run: 0..4
def loop_in_try(n: int) -> int:
    t = 0
    i = 0
    try:
        while i < 5:
            Invariant(i >= 0)
            if i == n:
                break
            i += 1
            t += i
        t += 100
    finally:
        t += 1000
    return t


# run: 0..4
def cont_in_try(n: int) -> int:
    t = 0
    i = 0
    try:
        while i < 3:
            Invariant(i >= 0)
            i += 1
            if i == n:
                continue
            t += i
        t += 100
    finally:
        t += 1000
    return t


# run: 0..4
def ret_in_handler(n: int) -> int:
    t = 0
    try:
        thrower(n)
        t = 1
    except A:
        return t
    except C:
        t = 5
    else:
        t += 30
        if n == 4:
            return t
    finally:
        t += 1000
        if n == 2 or n == 4:
            return t
    return t + 7


# run: 0..4
def break_in_handler(n: int) -> int:
    t = 0
    i = 0
    while i < 3:
        Invariant(i >= 0)
        i += 1
        try:
            thrower(n)
            t = 1
        except A:
            t += 4
            if n == 1:
                break
            continue
        except C:
            t += 5
        else:
            t += 30
            break
        finally:
            t += 1000
        t += 3
    return t + 7


# run: 0..4
def outer_as(n: int) -> int:
    t = 0
    try:
        try:
            thrower(n)
            t = 1
        except B:
            t = 2
        finally:
            t += 10
    except A as e:
        if isinstance(e, B):
            t += 300
        else:
            t += 100
    except C as e2:
        t += 200
    return t


# run: 0..4
def outer_as2(n: int) -> int:
    t = 0
    try:
        try:
            thrower(n)
            t = 1
        except C:
            t = 2
    except A as e:
        if isinstance(e, B):
            t += 300
        else:
            t += 100
    return t


# run: 0..4
def ret_nested_finally(n: int) -> int:
    t = 0
    try:
        try:
            if n == 0:
                return 5
            thrower(n)
        finally:
            t += 10
            if n == 4:
                return 6
    except A:
        t += 100
    except C:
        t += 200
    finally:
        t += 1000
        if n == 0 or n == 4:
            return t
    return t


# run: 0..4
def finally_in_loop_ret(n: int) -> int:
    t = 0
    try:
        i = 0
        while i < 4:
            Invariant(i >= 0)
            i += 1
            try:
                if i == n:
                    return 77
                t += i
            finally:
                t += 10
        t += 100
    finally:
        t += 1000
        if n == 2:
            return t
    return t


# run: 0..4
def raise_in_finally(n: int) -> int:
    t = 0
    try:
        try:
            thrower(n)
            t = 1
        finally:
            t += 10
            if n == 3:
                raise B()
            if n == 0:
                raise C()
    except A:
        t += 100
    except C:
        t += 200
    return t


# run: 0..4
def break_finally_nested(n: int) -> int:
    t = 0
    i = 0
    while i < 4:
        Invariant(i >= 0)
        i += 1
        try:
            try:
                if i == n:
                    break
                t += 1
            finally:
                t += 10
            t += 100
        finally:
            t += 1000
        t += 10000
    return t


# run: 0..4
def while_else_try(n: int) -> int:
    t = 0
    i = 0
    try:
        while i < 2:
            Invariant(i >= 0)
            i += 1
            thrower(n)
            t += 1
        else:
            t += 10
    except A:
        t += 100
    except C:
        t += 200
    finally:
        t += 1000
    return t


# run: 0..4
def raise_in_else(n: int) -> int:
    t = 0
    try:
        try:
            t += 1
        except A:
            t += 2
        else:
            thrower(n)
            t += 4
        finally:
            t += 10
    except A:
        t += 100
    except C:
        t += 200
    return t
