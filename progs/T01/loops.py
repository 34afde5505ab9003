from nagini_contracts.contracts import *


# run: -1..4; bool
def while_break_continue(n: int, b: bool) -> int:
    Requires(n >= -1)
    t = 0
    i = 0
    while i < n:
        Invariant(i >= 0)
        i += 1
        if i == 2 and b:
            continue
        if i == 4:
            break
        t = t * 10 + i
    return t


# run: 0..5; 0..3
def while_else(n: int, k: int) -> int:
    i = 0
    t = 1
    while i < n:
        Invariant(i >= 0)
        if i == k:
            t = t * 10 + 7
            break
        t = t * 10 + i
        i = i + 1
    else:
        t = t * 10 + 9
    return t


# run: 0..3; 0..3
def nested_while(n: int, m: int) -> int:
    t = 0
    i = 0
    while i < n:
        Invariant(i >= 0)
        j = 0
        while j < m:
            Invariant(j >= 0 and i >= 0)
            if j == i:
                j += 2
                continue
            if i + j == 4:
                break
            t = t + 10 * i + j
            j += 1
        else:
            t += 100
        i += 1
    return t


# run: 0..4
def while_return(n: int) -> int:
    i = 0
    while True:
        Invariant(i >= 0)
        if i == n:
            return i * 10
        if i == 3:
            break
        i += 1
    return 77


# run: 0..3
def while_false_body(n: int) -> int:
    t = n
    while t > 100:
        t = 0
    else:
        t = t + 1
    return t


# run: 0..3; bool
def while_cond_effect(n: int, b: bool) -> int:
    i = 0
    while i < n and (b or i < 1):
        Invariant(i >= 0)
        i = i + 1
    return i


# run: 0..3
def nested_break_only_inner(n: int) -> int:
    t = 0
    a = 0
    while a < 2:
        Invariant(a >= 0)
        c = 0
        while True:
            Invariant(c >= 0 and a >= 0)
            if c >= n:
                break
            c += 1
            t += 1
        t += 10
        a += 1
    return t


# run: 0..3
def nested_return(n: int) -> int:
    a = 0
    while a < 3:
        Invariant(a >= 0)
        c = 0
        while c < 3:
            Invariant(c >= 0 and a >= 0)
            if a == n and c == 1:
                return a * 10 + c
            c += 1
        a += 1
    return 99


# run: -2..3
def elif_chain(n: int) -> int:
    if n < 0:
        r = 1
    elif n == 0:
        r = 2
    elif n == 1:
        r = 3
        if r == 3:
            return 33
        r = 34
    elif n > 2:
        r = 4
    else:
        r = 5
    return r * 2
