from nagini_contracts.contracts import *
from typing import List


# run: 0..2
def length(k: int) -> int:
    s = 'ab'
    if k == 1:
        s = s + 'cde'
    if k == 2:
        s = ''
    return len(s)


# run: 0..2
def equal(k: int) -> bool:
    s = 'ab'
    if k == 1:
        s = 'a' + 'b'
    if k == 2:
        s = 'ba'
    return s == 'ab'


# run: 0..2
def notequal(k: int) -> bool:
    s = 'ab'
    if k == 1:
        s = ''
    return s != 'ab'


# run: 0..1
def truth(k: int) -> bool:
    s = ''
    if k == 1:
        s = 'x'
    if s:
        return True
    return False


# run: 0..3
def bytesat(k: int) -> int:
    b = b'\x01\x02\xff\x00'
    return b[k] * 10 + len(b)


# run: -4..3
def bytesneg(k: int) -> int:
    b = b'\x01\x02\xff\x00'
    return b[k]


# run: 0..3; 0..3
def bytesslice(a: int, c: int) -> int:
    b = b'\x01\x02\x03'
    u = b[a:c]
    return len(u)


# run: 0..2
def bytesadd(k: int) -> int:
    b = b'\x01' + b'\x02\x03'
    return b[k] * 10 + len(b)


# run: 0..1
def byteseq(k: int) -> bool:
    b = b'\x01'
    if k == 1:
        b = b + b'\x02'
    return b == b'\x01\x02'


# run: 0..3
def arrays(k: int) -> int:
    a = bytearray([1, 2, 3, 4])
    a[k] = 9
    a.append(5)
    return a[0] * 100 + a[3] * 10 + len(a)


# run: 0..3
def zeros(k: int) -> int:
    a = bytearray(k)
    if k > 0:
        return len(a) * 10 + a[k - 1]
    return 0


# run: -1..2
def badzeros(k: int) -> int:
    if k == -1:
        a = bytearray(k) #! pre
        return len(a)
    a = bytearray(k)
    return len(a)


# run: 254..257
def outofbyte(k: int) -> int:
    a = bytearray(2)
    if k > 255:
        a[0] = k #! pre
    if k <= 255:
        a[0] = k
    return a[0]


# run: 0..2
def areverse(k: int) -> int:
    a = bytearray([1, 2, 3])
    a.reverse()
    return a[k]


# run: 0..3
def aslice(k: int) -> int:
    a = bytearray([1, 2, 3])
    b = a[k:]
    b.append(7)
    return len(b) * 10 + len(a)


# run: 0..3
def acopy(k: int) -> int:
    a = bytearray([1, 2, 3])
    b = bytearray(a)
    b.append(k)
    b[0] = k
    return len(a) * 100 + a[0] * 10 + b[0]
