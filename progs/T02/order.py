from nagini_contracts.contracts import *


class Cnt:
    def __init__(self) -> None:
        Ensures(Acc(self.t) and self.t == 0)  # type: ignore
        self.t = 0  # type: int

    def tick(self, k: int, r: bool) -> bool:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == Old(self.t) * 10 + k)
        Ensures(Result() == r)
        self.t = self.t * 10 + k
        return r

    def val(self, k: int, r: int) -> int:
        Requires(Acc(self.t))
        Ensures(Acc(self.t) and self.t == Old(self.t) * 10 + k)
        Ensures(Result() == r)
        self.t = self.t * 10 + k
        return r

# run: 0..2; 0..2; 0..2
def chain(a: int, b: int, c: int) -> int:
    x = Cnt()
    r = 0
    if x.val(1, a) < x.val(2, b) < x.val(3, c):
        r = 1
    return x.t * 10 + r

# run: 0..2; 0..2; 0..2
def chain2(a: int, b: int, c: int) -> int:
    x = Cnt()
    r = 0
    if a < x.val(2, b) < c:
        r = 1
    return x.t * 10 + r

# run: 0..2; 0..2
def chain3(a: int, b: int) -> int:
    x = Cnt()
    r = 0
    if 0 < a < 3 // (a + b + 1) < 2:
        r = 1
    return x.t * 10 + r

# run: 0..2; 0..2
def intand(a: int, b: int) -> int:
    x = Cnt()
    y = x.val(1, a) and x.val(2, b)
    z = x.val(3, a) or x.val(4, b)
    return x.t * 100 + y * 10 + z

# run: 0..2; 0..2
def ife(a: int, b: int) -> int:
    x = Cnt()
    y = x.val(1, a) if a < b else x.val(2, b)
    return x.t * 100 + y * 10

# run: 0..2; 0..2
def ife2(a: int, b: int) -> int:
    x = Cnt()
    y = x.val(1, a) if x.t == b else x.val(2, b)
    return x.t * 100 + y * 10

# run: 0..2; 0..2
def order_local(a: int, b: int) -> int:
    x = Cnt()
    y = x.t + x.val(1, a) + x.t * 100
    return y

# run: 0..2; 0..2
def cond_order(a: int, b: int) -> int:
    x = Cnt()
    y = 0
    if x.t == 0 and x.val(1, a) == 1 and x.t == 1:
        y = 1
    return y * 100 + x.t

# run: 0..2; 0..2
def cmp_order(a: int, b: int) -> int:
    x = Cnt()
    y = 0
    if x.t < x.val(1, a):
        y = 1
    if x.val(2, a) < x.t:
        y += 2
    return y * 100 + x.t

def two(a: int, b: int = 7, c: int = 8) -> int:
    Ensures(Result() == a * 100 + b * 10 + c)
    return a * 100 + b * 10 + c

# run: 0..2; 0..2
def arg_order2(a: int, b: int) -> int:
    x = Cnt()
    y = two(x.t, x.val(1, a), x.t)
    return y * 100 + x.t

# run: 0..2; 0..2
def kwarg_order(a: int, b: int) -> int:
    x = Cnt()
    y = two(c=x.val(1, 1), a=x.val(2, a))
    return y * 100 + x.t

# run: 0..2; 0..2
def aug3(a: int, b: int) -> int:
    x = Cnt()
    l = [1, 2, 3]
    l[x.val(1, a)] = x.val(2, b)
    return x.t * 100 + l[0] * 10 + l[1]

# run: 0..2; 0..2
def tup(a: int, b: int) -> int:
    x = Cnt()
    u, v = x.val(1, a), x.val(2, b)
    u, v = v, u
    w = (x.t, x.val(3, a), x.t)
    return w[0] * 1000 + w[2] + u * 100000 + v * 1000000

# run: bool; bool
def eqbool(p: bool, q: bool) -> int:
    x = Cnt()
    r = 0
    if x.tick(1, p) == x.tick(2, q):
        r = 1
    if x.tick(1, p) is x.tick(2, q):
        r += 2
    if not (x.tick(1, p) != x.tick(2, q)):
        r += 4
    return x.t * 10 + r
