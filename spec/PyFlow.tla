------------------------------- MODULE PyFlow -------------------------------
(***************************************************************************)
(* Control flow of Python statements as the language reference defines it: *)
(* sequences, conditionals, while and for with else, break, continue,      *)
(* return, raise, try/except/else/finally and with.                        *)
(*                                                                         *)
(* A store is [t, n, w, s, rv, i]: a trace of the basic statements executed    *)
(* (folded into one number), the function argument, the traces of the two  *)
(* context managers used and the loop counters.  Executing a statement     *)
(* gives a store and a signal: "ok", "brk", "cnt", "ret" or an exception.  *)
(* The same module generates the statements: Gen(r, d) builds the program  *)
(* number r of depth d.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Fold(t, k) == (t * 7 + k) % 997

\* A and C are unrelated exceptions, B is a subclass of A
Sub(e, h) == h = "X" \/ e = h \/ (e = "B" /\ h = "A")
IsExc(g) == g \in {"A", "B", "C"}
\* the exception thrower(k) raises
Thrown(k) == CASE k = 1 -> "A" [] k = 2 -> "B" [] k = 3 -> "C" [] OTHER -> "ok"

(*----------------------------- semantics --------------------------------*)
\* conditions are pairs <<loop depth of the counter or 0 for n, constant>>
Val(st, v) == IF v = 0 THEN st.n ELSE st.i[v]
Holds(c, st) == Val(st, c[1]) = c[2]

Code(st) == st.t * 1000000 + st.w * 1000 + st.s
R(st, g) == [st |-> st, g |-> g]
Tick(st, k) == [st EXCEPT !.t = Fold(@, k)]

RECURSIVE Exec(_, _), Seq1(_, _, _), Loop(_, _, _), Handle(_, _, _, _)
Seq1(ss, j, st) ==
    IF j > Len(ss) THEN R(st, "ok")
    ELSE LET r == Exec(ss[j], st)
         IN IF r.g = "ok" THEN Seq1(ss, j + 1, r.st) ELSE r

\* the counter of a while loop is incremented by its first statement, that of
\* a for loop by the loop itself; either way the body sees 1, 2, ...
Loop(s, k, st) ==
    IF k > s.b THEN Seq1(s.els, 1, st)
    ELSE LET r == Seq1(s.body, 1, [st EXCEPT !.i[s.v] = k])
         IN IF r.g \in {"ok", "cnt"} THEN Loop(s, k + 1, r.st)
            ELSE IF r.g = "brk" THEN R(r.st, "ok")
            ELSE r

Handle(hs, j, e, st) ==
    IF j > Len(hs) THEN R(st, e)
    ELSE IF Sub(e, hs[j].x) THEN Seq1(hs[j].body, 1, st)
    ELSE Handle(hs, j + 1, e, st)

Exec(s, st) ==
    CASE s.o = "tick" -> R(Tick(st, s.k), "ok")
      [] s.o = "if" -> IF Holds(s.c, st) THEN Seq1(s.body, 1, st) ELSE Seq1(s.els, 1, st)
      [] s.o = "raise" -> R(st, s.x)
      [] s.o = "ret" -> LET x == Tick(st, 9) IN R([x EXCEPT !.rv = Code(x)], "ret")   \* evaluated here, not at the exit
      [] s.o = "brk" -> R(st, "brk")
      [] s.o = "cnt" -> R(st, "cnt")
      [] s.o = "call" -> LET e == Thrown(Val(st, s.v)) IN IF e = "ok" THEN R(Tick(st, 3), "ok") ELSE R(st, e)
      [] s.o \in {"while", "for"} -> Loop(s, 1, st)
      [] s.o = "try" ->
           LET b == Seq1(s.body, 1, st)
               h == IF IsExc(b.g) THEN Handle(s.hs, 1, b.g, b.st)
                    ELSE IF b.g = "ok" THEN Seq1(s.els, 1, b.st) ELSE b
               f == Seq1(s.fin, 1, h.st)
           IN IF f.g = "ok" THEN R(f.st, h.g) ELSE f
      [] s.o = "with" ->
           LET b == Seq1(s.body, 1, [st EXCEPT !.w = Fold(@, 1)])
           IN IF IsExc(b.g) THEN R([b.st EXCEPT !.w = Fold(@, 3)], b.g) ELSE R([b.st EXCEPT !.w = Fold(@, 2)], b.g)
      [] s.o = "withs" ->      \* its __exit__ suppresses exceptions of class A
           LET b == Seq1(s.body, 1, [st EXCEPT !.s = Fold(@, 1)])
           IN R([b.st EXCEPT !.s = Fold(@, 4)], IF IsExc(b.g) /\ Sub(b.g, "A") THEN "ok" ELSE b.g)

\* result of function body ss on argument n
Run(ss, n) ==
    LET r == Seq1(ss, 1, [t |-> 0, n |-> n, w |-> 0, s |-> 0, rv |-> 0, i |-> [v \in 1..4 |-> 0]])
    IN IF IsExc(r.g) THEN <<"raise", r.g>> ELSE <<"ret", IF r.g = "ret" THEN r.st.rv ELSE Code(r.st)>>

(*----------------------------- generation --------------------------------*)
\* r is the state of a linear congruential generator; generators return <<value, r>>
Nx(r) == (r * 75 + 74) % 65537
Pick(r, n) == (r \div 11) % n

S(o) == [o |-> o]
\* x: [lp |-> loop nesting, top |-> break/continue allowed, cnt |-> continue allowed, w |-> with allowed]
RECURSIVE GenS(_, _, _), GenB(_, _, _, _)
GenB(r, d, x, n) ==
    IF n = 0 THEN <<<<>>, r>>
    ELSE LET a == GenS(r, d, x) b == GenB(a[2], d, x, n - 1) IN <<<<a[1]>> \o b[1], b[2]>>

Body(r, d, x) == GenB(Nx(r), d, x, 1 + Pick(r, 2))

Jump(r, x) ==
    LET k == Pick(r, IF x.top /\ x.cnt THEN 7 ELSE IF x.top THEN 6 ELSE 5)
        c == <<Pick(Nx(r), x.lp + 1), 1 + Pick(Nx(Nx(r)), 2)>>
        j == CASE k = 0 -> [o |-> "raise", x |-> "A"] [] k = 1 -> [o |-> "raise", x |-> "B"]
               [] k = 2 -> [o |-> "raise", x |-> "C"]
               [] k = 5 -> S("brk") [] k = 6 -> S("cnt") [] OTHER -> S("ret")
    IN [o |-> "if", c |-> c, body |-> <<[o |-> "tick", k |-> 4], j>>, els |-> <<>>]

GenS(r0, d, x) ==
    LET r == Nx(r0)
        k == Pick(r, IF d = 0 THEN 6 ELSE 16)
    IN CASE k <= 1 -> <<[o |-> "tick", k |-> 1 + Pick(Nx(r), 6)], Nx(Nx(r))>>
         [] k \in {2, 3, 4} -> <<Jump(Nx(r), x), Nx(Nx(Nx(r)))>>
         [] k = 5 -> <<[o |-> "call", v |-> Pick(Nx(r), x.lp + 1)], Nx(Nx(r))>>
         [] k = 6 ->
              LET a == Body(Nx(Nx(r)), d - 1, x) b == Body(a[2], d - 1, x)
              IN <<[o |-> "if", c |-> <<Pick(Nx(r), x.lp + 1), 1 + Pick(r, 3)>>, body |-> a[1], els |-> b[1]], b[2]>>
         [] k \in {7, 8, 9} /\ x.lp < 2 ->
              LET y == [x EXCEPT !.lp = @ + 1, !.top = TRUE, !.cnt = TRUE]
                  a == Body(Nx(r), d - 1, y)
                  b == IF Pick(a[2], 3) = 0 THEN Body(a[2], 0, x) ELSE <<<<>>, a[2]>>
              IN <<[o |-> IF Pick(r, 5) > 2 THEN "for" ELSE "while", v |-> y.lp, b |-> 2 + Pick(Nx(r), 2), body |-> a[1], els |-> b[1]], b[2]>>
         [] k \in {10, 11} ->
              LET a == Body(Nx(r), d - 1, x)
              IN <<[o |-> IF k = 10 THEN "with" ELSE "withs", body |-> a[1]], a[2]>>
         [] OTHER ->
              LET a == Body(Nx(r), d - 1, x)
                  nh == Pick(a[2], 3)
                  h1 == Body(Nx(a[2]), d - 1, x)
                  h2 == Body(h1[2], 0, x)
                  x1 == <<"A", "B", "C", "X">>[1 + Pick(h2[2], 4)]
                  x2 == IF x1 = "A" THEN "C" ELSE IF x1 = "X" THEN "B" ELSE <<"A", "X">>[1 + Pick(Nx(h2[2]), 2)]
                  hs == CASE nh = 0 -> <<>> [] nh = 1 -> <<[x |-> x1, body |-> h1[1]]>>
                          [] OTHER -> <<[x |-> x1, body |-> h1[1]], [x |-> x2, body |-> h2[1]]>>
                  e == IF nh > 0 /\ Pick(Nx(Nx(h2[2])), 3) = 0 THEN Body(h2[2], 0, x) ELSE <<<<>>, h2[2]>>
                  f == IF nh = 0 \/ Pick(Nx(e[2]), 2) = 0 THEN Body(Nx(e[2]), d - 1, [x EXCEPT !.cnt = FALSE]) ELSE <<<<>>, e[2]>>
              IN <<[o |-> "try", body |-> a[1], hs |-> hs, els |-> e[1], fin |-> f[1]], Nx(f[2])>>

Gen(r, d) == Body(Nx(Nx(r)), d, [lp |-> 0, top |-> FALSE, cnt |-> FALSE])[1]

(*------------------------------ emission ---------------------------------*)
Lo == atoi(IOEnv.FLOW_LO)
Hi == atoi(IOEnv.FLOW_HI)
Depth == atoi(IOEnv.FLOW_DEPTH)
VARIABLE p
Init == p = 0
Next == /\ p <= Hi - Lo
        /\ LET ss == Gen(Lo + p, Depth)
           IN PrintT(<<"OUT", ToJson([id |-> Lo + p, ss |-> ss, exp |-> [n \in 1..5 |-> Run(ss, n - 1)]])>>)
        /\ p' = p + 1
=============================================================================
