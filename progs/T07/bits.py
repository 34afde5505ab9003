from nagini_contracts.contracts import *


# run: -3..3; -3..3
def conj(a: int, b: int) -> int:
    return a & b


# run: -3..3; -3..3
def disj(a: int, b: int) -> int:
    return a | b


# run: -3..3; -3..3
def exor(a: int, b: int) -> int:
    return a ^ b


# run: -3..3; 0..3
def left(a: int, b: int) -> int:
    return a << b


# run: -3..3; 0..3
def right(a: int, b: int) -> int:
    return a >> b


# run: -3..3; -1..2
def shifts(a: int, b: int) -> int:
    if b < 0:
        return a >> b #! pre
    return (a << b) + (a >> b)


# run: -3..3
def invert(a: int) -> int:
    return ~a


# run: -3..3
def size(a: int) -> int:
    return a.bit_length()


# run: bool; bool
def bools(a: bool, b: bool) -> int:
    x = a & b
    y = a | b
    z = a ^ b
    r = 0
    if x:
        r = r + 1
    if y:
        r = r + 10
    if z:
        r = r + 100
    return r


# run: bool; -2..2
def mixed(a: bool, b: int) -> int:
    return (a & b) * 10 + (a | b)


# run: -7..7; 1..3
def divs(a: int, b: int) -> int:
    return (a // b) * 10 + a % b


# run: -7..7; -3..-1
def negdivs(a: int, b: int) -> int:
    return (a // b) * 10 + a % b


# run: -1..1
def zerodiv(a: int) -> int:
    if a == 0:
        return 5 // a #! pre
    return 5 % a


# run: -3..3; 0..3
def powers(a: int, b: int) -> int:
    return a ** b


# run: bool
def plus(a: bool) -> int:
    return +a


# run: bool
def minus(a: bool) -> int:
    return -a


# run: 254..257
def limits(a: int) -> int:
    if a > 255:
        return a & 3 #! pre
    return a & 3
