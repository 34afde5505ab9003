------------------------------- MODULE PyObj --------------------------------
(***************************************************************************)
(* Objects of Python as the language reference defines them: a hierarchy   *)
(* of classes, attribute lookup along the superclasses of the object's     *)
(* class (not of the variable's type), super(), Class.m(obj, ..), default  *)
(* and keyword arguments, constructors that are inherited, replaced or     *)
(* extended, one field whose value is the object's state, and tests of the *)
(* class of an object.                                                     *)
(*                                                                         *)
(* Classes are 1..N, class c has superclass par[c] < c (0: object).  Every *)
(* class defines some of the methods 1..3 (class 1 all of them); Invoke    *)
(* gives the value of a call and the value of the field after it.          *)
(* Gen(r) builds hierarchy and program number r.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Fold(t, k) == (t * 7 + k) % 997
N == 4
M == 3

(*----------------------------- semantics --------------------------------*)
\* h.par[c], h.def[c][m] (a record with o = "none" when c does not define m), h.init[c]
RECURSIVE Sub(_, _, _), Find(_, _, _), FindInit(_, _)
Sub(h, c, d) == c = d \/ (c # 0 /\ Sub(h, h.par[c], d))
Find(h, c, m) == IF h.def[c][m].o # "none" THEN c ELSE Find(h, h.par[c], m)
FindInit(h, c) == IF h.init[c].o # "none" THEN c ELSE FindInit(h, h.par[c])

R(v, f) == [v |-> v, f |-> f]
RECURSIVE Invoke(_, _, _, _, _, _, _), Construct(_, _, _, _, _)
\* the method m found in class c, run for an object of class d with field f
Invoke(h, c, m, d, f, x, y) ==
    LET b == h.def[c][m]
        out(v, g) == R(Fold(Fold(v, b.k), x * 3 + y), g)
    IN CASE b.o = "const" -> out(c, f)
         [] b.o = "other" -> LET r == Invoke(h, Find(h, d, b.m), b.m, d, f, x + 1, h.dflt[b.m]) IN out(r.v, r.f)
         [] b.o = "sup" -> LET r == Invoke(h, Find(h, h.par[c], m), m, d, f, x, y + 1) IN out(r.v, r.f)
         [] b.o = "fld" -> LET g == Fold(f, b.k + x) IN out(g, g)
         [] b.o = "isi" -> out(IF Sub(h, d, b.c) THEN 1 ELSE 2, f)
         [] b.o = "typ" -> out(IF d = b.c THEN 3 ELSE 4, f)
\* the constructor found in class c, for a new object of class d; gives the field
Construct(h, c, d, v, f) ==
    LET b == h.init[c]
    IN CASE b.o = "set" -> Fold(v, b.k)
         [] b.o = "sup" -> Construct(h, FindInit(h, h.par[c]), d, v + b.k, f)
         [] b.o = "both" -> Fold(Construct(h, FindInit(h, h.par[c]), d, v, f), b.k)
         [] b.o = "call" -> Invoke(h, Find(h, d, 3), 3, d, Fold(v, b.k), v, h.dflt[3]).f
New(h, c, v) == Construct(h, FindInit(h, c), c, v, 0)

\* the program: an object of class p.cls[n+1] made for argument n, then calls; results are folded into t
RECURSIVE Calls(_, _, _, _, _, _)
Calls(h, cs, j, d, s, n) ==
    IF j > Len(cs) THEN s
    ELSE LET i == cs[j]
             x == n + i.x
             y == IF i.form \in {"one", "kw1"} THEN h.dflt[i.m] ELSE i.y
             c == IF i.direct = 0 THEN Find(h, d, i.m) ELSE Find(h, i.direct, i.m)
             r == Invoke(h, c, i.m, d, s.f, x, y)
         IN Calls(h, cs, j + 1, d, [f |-> r.f, t |-> Fold(s.t, r.v)], n)
Run(p, n) ==
    LET d == p.cls[n + 1]
        s == Calls(p.h, p.calls, 1, d, [f |-> New(p.h, d, n), t |-> 0], n)
    IN s.t * 1000 + s.f

(*----------------------------- generation --------------------------------*)
RECURSIVE Nxn(_, _)
Nx(r) == (r * 75 + 74) % 65537
Nxn(r, k) == IF k = 0 THEN r ELSE Nxn(Nx(r), k - 1)
Pick(r, n) == (r \div 11) % n
\* choice number i of program number r
Ch(r, i, n) == Pick(Nxn((r * 131 + i * 977) % 65537, 4), n)

GenBody(r, c, m) ==
    LET i == c * 20 + m * 4
        k == Ch(r, i, IF c = 1 THEN 6 ELSE 11)
        q == 1 + Ch(r, i + 1, 6)
    IN CASE k = 0 -> [o |-> "const", k |-> q]
         [] k = 1 /\ m < M -> [o |-> "other", k |-> q, m |-> m + 1 + Ch(r, i + 2, M - m)]
         [] k \in {1, 2} -> [o |-> "fld", k |-> q]
         [] k = 3 -> [o |-> "isi", k |-> q, c |-> 1 + Ch(r, i + 2, N)]
         [] k = 4 -> [o |-> "typ", k |-> q, c |-> 1 + Ch(r, i + 2, N)]
         [] k = 5 -> [o |-> "fld", k |-> q]
         [] k \in {6, 7} -> [o |-> "sup", k |-> q]
         [] OTHER -> [o |-> "none", k |-> 0]
GenInit(r, c) ==
    LET k == Ch(r, 200 + c, IF c = 1 THEN 3 ELSE 8)
        q == 1 + Ch(r, 210 + c, 6)
        o == IF c = 1 THEN <<"set", "set", "call">>[k + 1]
             ELSE <<"set", "sup", "sup", "both", "call", "none", "none", "none">>[k + 1]
    IN [o |-> o, k |-> q]
Gen(r) ==
    LET h == [par |-> [c \in 1..N |-> IF c = 1 THEN 0 ELSE 1 + Ch(r, 220 + c, c - 1)],
              def |-> [c \in 1..N |-> [m \in 1..M |-> GenBody(r, c, m)]],
              init |-> [c \in 1..N |-> GenInit(r, c)],
              dflt |-> [m \in 1..M |-> 2 + Ch(r, 230 + m, 5)]]
        cls == [n \in 1..4 |-> IF n <= 3 THEN n + 1 ELSE 1 + Ch(r, 240, N)]
        calls == [j \in 1..3 |->
                    [m |-> 1 + Ch(r, 250 + j, M), x |-> Ch(r, 260 + j, 3), y |-> Ch(r, 270 + j, 9),
                     form |-> <<"one", "kw1", "two", "kw2", "rev">>[1 + Ch(r, 280 + j, 5)],
                     direct |-> IF Ch(r, 290 + j, 4) = 0 THEN 1 ELSE 0]]
    IN [id |-> r, h |-> h, cls |-> cls, calls |-> calls]

(*------------------------- properties of the model -----------------------*)
\* lookup always ends in a class that defines the method, and no nearer superclass does
LookupOK(p) ==
    \A c \in 1..N, m \in 1..M :
        LET d == Find(p.h, c, m)
        IN /\ Sub(p.h, c, d) /\ p.h.def[d][m].o # "none"
           /\ \A e \in 1..N : Sub(p.h, c, e) /\ Sub(p.h, e, d) /\ e # d => p.h.def[e][m].o = "none"

(*------------------------------ emission ---------------------------------*)
Lo == atoi(IOEnv.OBJ_LO)
Hi == atoi(IOEnv.OBJ_HI)
VARIABLE p
Init == p = 0
Next == /\ p <= Hi - Lo
        /\ LET q == Gen(Lo + p)
           IN /\ Assert(LookupOK(q), "lookup")
              /\ PrintT(<<"OUT", ToJson([q EXCEPT !.id = Lo + p] @@ [exp |-> [n \in 1..4 |-> Run(q, n - 1)]])>>)
        /\ p' = p + 1
=============================================================================
