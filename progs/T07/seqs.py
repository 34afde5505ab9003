from nagini_contracts.contracts import *
from typing import List


# run: 0..3
def seqs(k: int) -> None:
    s = PSeq(1, 2, k)
    t = s + PSeq(4)
    u = t.update(1, 9)
    Assert(len(t) == 4 and t[3] == 4 and t[2] == k and len(s) == 3)
    Assert(u[1] == 9 and u[2] == k and u[0] == 1 and t[1] == 2 and len(u) == 4)
    if k == 3:
        Assert(t[-1] == 4 and t[-4] == 1 and t[2] != 3) #! assert


# run: -1..4
def takedrop(k: int) -> None:
    s = PSeq(1, 2, 3)
    Assert(len(s.take(2)) == 2 and s.take(2)[1] == 2 and len(s.take(5)) == 3 and len(s.take(0)) == 0)
    Assert(len(s.drop(2)) == 1 and s.drop(2)[0] == 3 and len(s.drop(5)) == 0 and s.drop(0) == s)
    Assert(len(s.take(k)) + len(s.drop(k)) == 3)
    Assert(k < 3 or s.take(k) == s)
    Assert(k > 0 or s.drop(k) == s)


# run: 0..3
def seqin(k: int) -> None:
    Assert((k in PSeq(1, 3)) == (k == 1 or k == 3))
    Assert(k not in PSeq(2) or k == 2)
    if k == 1 or k == 2:
        Assert(k not in PSeq(1, 2)) #! assert


# run: 0..3
def seqeq(k: int) -> None:
    Assert((PSeq(1, 2) == PSeq(1, k)) == (k == 2))
    Assert((PSeq(1, 2) != PSeq(1, k)) == (k != 2))
    Assert(PSeq(1) + PSeq(k) == PSeq(1, k))
    if k != 3:
        Assert(PSeq(1, k) == PSeq(1, 3)) #! assert


# run: 0..3
def psets(k: int) -> None:
    s = PSet(1, 2) + PSet(k)
    t = s - PSet(1)
    Assert(len(s) == (2 if k == 1 or k == 2 else 3))
    Assert(1 not in t and 2 in t and 1 in s)
    Assert((k in t) == (k != 1))
    Assert(PSet(1, k) == PSet(k, 1))
    if k == 1 or k == 2:
        Assert(len(t) == 2) #! assert


# run: 0..3
def msets(k: int) -> None:
    s = PMultiset(1, 1, 2) + PMultiset(k)
    t = s - PMultiset(1)
    Assert(len(s) == 4 and s.num(1) == (3 if k == 1 else 2))
    Assert(t.num(1) == (2 if k == 1 else 1) and t.num(2) == (2 if k == 2 else 1))
    Assert(len(t) == 3 and t.num(5) == 0)
    if k == 1 or k == 2:
        Assert(t.num(k) == 1) #! assert


# run: 0..3
def toseq(k: int) -> None:
    l = [1, k]
    s = ToSeq(l)
    l.append(3)
    Assert(len(s) == 2 and s[1] == k and s == PSeq(1, k))
    Assert(ToSeq(l) == PSeq(1, k, 3))
    l[1] = 7
    Assert(ToSeq(l)[1] == k) #! assert


# run: 0..3
def toms(k: int) -> None:
    l = [1, k, 1]
    m = ToMS(ToSeq(l))
    Assert(m.num(1) == (3 if k == 1 else 2) and len(m) == 3)
    Assert(m == PMultiset(k, 1, 1))
    if k == 1:
        Assert(m.num(k) == 1) #! assert


# run: 0..2
def bseq(k: int) -> None:
    s = PByteSeq(1, 2, 255)
    t = s + PByteSeq(k)
    u = t.update(0, 7)
    Assert(len(t) == 4 and t[3] == k and t[2] == 255 and u[0] == 7 and u[1] == 2)
    Assert(t.take(3) == s and t.drop(3) == PByteSeq(k))
    Assert((k in s) == (k == 1 or k == 2))
