from nagini_contracts.contracts import *
from typing import Optional


class A(Exception):
    pass


class B(A):
    pass


class C(Exception):
    pass


class M:
    def __init__(self) -> None:
        Ensures(Acc(self.t) and self.t == 1)  # type: ignore
        self.t = 1

    def __enter__(self) -> int:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == Old(self.t) * 10 + 2)
        Ensures(Result() == 9)
        self.t = self.t * 10 + 2
        return 9

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> int:
        Requires(Acc(self.t))
        Ensures(Acc(self.t))
        Ensures(Implies(e is None, self.t == Old(self.t) * 10 + 3))
        Ensures(Implies(e is not None, self.t == Old(self.t) * 10 + 4))
        Ensures(Result() == 0)
        if e is None:
            self.t = self.t * 10 + 3
        else:
            self.t = self.t * 10 + 4
        return 0


class S:
    """suppresses exceptions of class A."""

    def __init__(self) -> None:
        Ensures(Acc(self.n) and self.n == 0)  # type: ignore
        self.n = 0

    def __enter__(self) -> int:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + 1)
        Ensures(Result() == 9)
        self.n += 1
        return 9

    def __exit__(self, t: type, e: Optional[Exception], tb: Optional[object]) -> bool:
        Requires(Acc(self.n))
        Ensures(Acc(self.n) and self.n == Old(self.n) + 10)
        Ensures(Result() == isinstance(e, A))
        self.n += 10
        return isinstance(e, A)


# run: 0..3
def with_simple(n: int) -> int:
    m = M()
    with m as x:
        m.t = m.t * 10 + n + x
    return m.t


# run: 0..3
def with_loop(n: int) -> int:
    m = M()
    i = 0
    while i < 3:
        Invariant(Acc(m.t) and i >= 0)
        with m:
            i += 1
            if i == n:
                break
            if i == 1:
                continue
            m.t += 1
        m.t += 5
    return m.t


# run: 0..3
def loop_in_with(n: int) -> int:
    m = M()
    i = 0
    with m:
        while i < 3:
            Invariant(Acc(m.t) and i >= 0)
            i += 1
            if i == n:
                break
            if i == 1:
                continue
            m.t += 1
        m.t += 50
    return m.t


# run: 0..3
def with_exc(n: int) -> int:
    m = M()
    try:
        with m:
            if n == 1:
                raise A()
            m.t += 5
    except A:
        m.t = m.t * 10 + 8
    return m.t


# run: 0..3
def with_exc_finally(n: int) -> int:
    m = M()
    try:
        with m:
            if n == 1:
                raise A()
            if n == 2:
                raise C()
            m.t += 5
    except A:
        m.t = m.t * 10 + 8
    except C as e:
        m.t = m.t * 10 + 6
    finally:
        m.t = m.t + 500
    return m.t


# run: 0..3
def with_nested(n: int) -> int:
    m = M()
    k = M()
    try:
        with m:
            with k:
                if n == 1:
                    raise A()
                if n == 2:
                    raise B()
                m.t += 5
            m.t += 7
    except A as e:
        if isinstance(e, B):
            m.t += 1000
    return m.t * 100000 + k.t


# run: 0..3
def with_return(n: int) -> int:
    m = M()
    with_ret(m, n)
    return m.t


def with_ret(m: M, n: int) -> int:
    Requires(Acc(m.t) and m.t == 1)
    Ensures(Acc(m.t))
    Ensures(Implies(n == 1, m.t == 123))
    Ensures(Implies(n == 2, m.t == 12223))
    Ensures(Implies(n != 1 and n != 2, m.t == 12733))
    with m:
        if n == 1:
            return 5
        m.t = m.t * 10 + 2
        if n == 2:
            m.t = m.t * 10 + 2
            return 6
        m.t = m.t + 5
        with M():
            pass
        m.t = m.t * 10 + 3
    return 7


# run: 0..3
def nested_return(n: int) -> int:
    m = M()
    r = nested_ret(m, n)
    return m.t * 10 + r


def nested_ret(m: M, n: int) -> int:
    Requires(Acc(m.t) and m.t == 1)
    Ensures(Acc(m.t))
    Ensures(Result() == (5 if n == 1 else 7))
    Ensures(Implies(n == 1, m.t == 12233))
    Ensures(Implies(n != 1, m.t == 122393))
    with m:
        with m:
            if n == 1:
                return 5
        m.t = m.t * 10 + 9
    return 7


# run: 0..3
def break_through_two(n: int) -> int:
    m = M()
    i = 0
    while i < 2:
        Invariant(Acc(m.t) and i >= 0)
        i += 1
        with m:
            try:
                with m:
                    if i == n:
                        break
                    if n == 3:
                        continue
                m.t += 1
            finally:
                m.t += 2
    return m.t


# run: 0..3
def finally_with(n: int) -> int:
    m = M()
    try:
        with m:
            try:
                if n == 1:
                    raise A()
                if n == 2:
                    raise C()
            finally:
                m.t += 100
            m.t += 200
    except A:
        m.t += 1000
    except C:
        m.t += 2000
    return m.t


# run: 0..3
def suppress(n: int) -> int:
    s = S()
    r = 0
    try:
        with s:
            if n == 1:
                raise A()
            if n == 2:
                raise B()
            if n == 3:
                raise C()
            r = 1
        r += 10
    except A:
        r = 77
    except C:
        r += 100
    return r * 100 + s.n


# run: 0..3
def suppress_bare(n: int) -> int:
    s = S()
    r = 0
    with s:
        if n == 1:
            raise A()
        r = 1
    return r + 10


# run: 0..3
def suppress_inner(n: int) -> int:
    s = S()
    m = M()
    r = 0
    with m:
        with s:
            if n == 1:
                raise A()
            r = 1
        r += 10
    return r * 10000 + m.t


# run: 0..3
def handler_with(n: int) -> int:
    m = M()
    try:
        if n == 1:
            raise A()
        if n == 2:
            raise C()
    except A:
        with m:
            m.t += 1
    except C:
        with m:
            m.t += 2
            if n == 2:
                return m.t
    else:
        with m:
            m.t += 3
    finally:
        with m:
            m.t += 4
    return m.t


# run: 0..4
def with_in_finally(n: int) -> int:
    m = M()
    a = with_in_finally1(m, n)
    return a * 100000 + m.t


def with_in_finally1(m: M, n: int) -> int:
    Requires(Acc(m.t))
    Ensures(Acc(m.t))
    r = 0
    try:
        with m as k:
            r = k
            if n == 1:
                return 5
            try:
                with m:
                    r = r + 1
                    if n == 2:
                        return r
            finally:
                m.t = m.t * 10 + 7
            r = r + 2
    finally:
        m.t = m.t * 10 + 8
        r = r + 10
    return r


# run: 0..4
def finally_in_with(n: int) -> int:
    m = M()
    a = finally_in_with1(m, n)
    return a * 100000 + m.t


def finally_in_with1(m: M, n: int) -> int:
    Requires(Acc(m.t))
    Ensures(Acc(m.t))
    r = 0
    i = 0
    while i < 2:
        Invariant(Acc(m.t))
        i += 1
        with m:
            try:
                if n == 1:
                    return i
                if n == 2:
                    break
                if n == 3:
                    continue
            finally:
                m.t = m.t * 10 + 5
        r = r + 1
    return r
