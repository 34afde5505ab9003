------------------------------- MODULE PyExpr -------------------------------
(***************************************************************************)
(* Evaluation of Python expressions over integers, booleans, tuples and    *)
(* calls as the language reference defines it: operands from left to       *)
(* right, short-circuiting and, or and chained comparisons, conditional    *)
(* expressions that evaluate one branch, arguments in the order they are   *)
(* written, whatever parameter they are bound to.                          *)
(*                                                                         *)
(* A store is [a, b, p, t, f]: the arguments and the two fields of the     *)
(* object x.  Calls of x's methods fold a number into t and change f, so   *)
(* the final store shows which calls were made, in which order.            *)
(* Gen(r) builds expression statement number r.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Call(st, k) == [st EXCEPT !.t = (@ * 7 + k) % 997, !.f = (@ + k) % 5]
V(v, st) == [v |-> v, st |-> st]
BInt(b) == IF b THEN 1 ELSE 0
FloorDiv(x, y) == IF y > 0 THEN x \div y ELSE (-x) \div (-y)
Mod(x, y) == x - y * FloorDiv(x, y)
Abs(x) == IF x < 0 THEN -x ELSE x
Cmp(op, x, y) ==
    CASE op = "<" -> x < y [] op = "<=" -> x <= y [] op = ">" -> x > y
      [] op = ">=" -> x >= y [] op = "==" -> x = y [] OTHER -> x # y
Add3(x, y, z) == x * 100 + y * 10 + z

RECURSIVE Ev(_, _), Links(_, _, _, _), Evs(_, _, _, _)
\* values of several expressions, left to right
Evs(es, i, vs, st) ==
    IF i > Len(es) THEN V(vs, st)
    ELSE LET r == Ev(es[i], st) IN Evs(es, i + 1, Append(vs, r.v), r.st)
\* the links of a chained comparison after the first operand
Links(e, i, l, st) ==
    LET r == Ev(e.es[i + 1], st)
        c == Cmp(e.ops[i], l, r.v)
    IN IF ~c THEN V(FALSE, r.st) ELSE IF i = Len(e.ops) THEN V(TRUE, r.st) ELSE Links(e, i + 1, r.v, r.st)

Ev(e, st) ==
    CASE e.o = "const" -> V(e.c, st)
      [] e.o = "a" -> V(st.a, st)
      [] e.o = "b" -> V(st.b, st)
      [] e.o = "p" -> V(st.p, st)
      [] e.o = "f" -> V(st.f, st)
      [] e.o \in {"+", "-", "*"} ->
            LET r == Evs(e.es, 1, <<>>, st)
            IN V(CASE e.o = "+" -> r.v[1] + r.v[2] [] e.o = "-" -> r.v[1] - r.v[2] [] OTHER -> r.v[1] * r.v[2], r.st)
      [] e.o = "//" -> LET r == Ev(e.es[1], st) IN V(FloorDiv(r.v, e.c), r.st)
      [] e.o = "%" -> LET r == Ev(e.es[1], st) IN V(Mod(r.v, e.c), r.st)
      [] e.o = "neg" -> LET r == Ev(e.es[1], st) IN V(-r.v, r.st)
      [] e.o = "abs" -> LET r == Ev(e.es[1], st) IN V(Abs(r.v), r.st)
      [] e.o \in {"max", "min"} ->
            LET r == Evs(e.es, 1, <<>>, st)
            IN V(IF (r.v[1] < r.v[2]) = (e.o = "max") THEN r.v[2] ELSE r.v[1], r.st)
      [] e.o = "cond" ->            \* es[1] if es[2] else es[3]
            LET c == Ev(e.es[2], st) IN IF c.v THEN Ev(e.es[1], c.st) ELSE Ev(e.es[3], c.st)
      [] e.o = "iand" -> LET l == Ev(e.es[1], st) IN IF l.v = 0 THEN l ELSE Ev(e.es[2], l.st)
      [] e.o = "ior" -> LET l == Ev(e.es[1], st) IN IF l.v # 0 THEN l ELSE Ev(e.es[2], l.st)
      [] e.o = "and" -> LET l == Ev(e.es[1], st) IN IF ~l.v THEN l ELSE Ev(e.es[2], l.st)
      [] e.o = "or" -> LET l == Ev(e.es[1], st) IN IF l.v THEN l ELSE Ev(e.es[2], l.st)
      [] e.o = "not" -> LET r == Ev(e.es[1], st) IN V(~r.v, r.st)
      [] e.o = "beq" -> LET r == Evs(e.es, 1, <<>>, st) IN V((r.v[1] = r.v[2]) = e.c, r.st)
      [] e.o = "cmp" -> LET l == Ev(e.es[1], st) IN Links(e, 1, l.v, l.st)
      [] e.o = "in" -> LET r == Evs(e.es, 1, <<>>, st) IN V((r.v[1] \in {r.v[2], r.v[3]}) = e.c, r.st)
      [] e.o = "idx" -> LET r == Evs(e.es, 1, <<>>, st) IN V(r.v[1 + (e.c % Len(e.es))], r.st)
      [] e.o \in {"int", "bool"} ->
            LET r == Ev(e.es[1], st) IN V(IF e.o = "int" THEN BInt(r.v) ELSE r.v # 0, r.st)
      [] e.o \in {"val", "tick"} -> LET r == Ev(e.es[1], st) IN V(r.v, Call(r.st, e.k))
      [] e.o = "two" ->             \* x.two(k, u, v): order of the last two arguments as written
            LET r == Evs(e.es, 1, <<>>, st) IN V(r.v[1 + e.sw] - r.v[2 - e.sw], Call(r.st, e.k))
      [] e.o = "add3" ->            \* add3(u, v = 7, w = 8); ks: parameter each argument is bound to
            LET r == Evs(e.es, 1, <<>>, st)
                at(k, d) == IF \E i \in 1..Len(e.ks) : e.ks[i] = k THEN r.v[CHOOSE i \in 1..Len(e.ks) : e.ks[i] = k] ELSE d
            IN V(Add3(at(1, 0), at(2, 7), at(3, 8)), r.st)

(*----------------------------- generation --------------------------------*)
Nx(r) == (r * 75 + 74) % 65537
Pick(r, n) == (r \div 11) % n
Ops == << "<", "<=", ">", ">=", "==", "!=" >>
N(o, es) == [o |-> o, es |-> es]

RECURSIVE GenI(_, _), GenBo(_, _), GenIs(_, _, _)
GenIs(r, d, n) ==
    IF n = 0 THEN <<<<>>, r>>
    ELSE LET a == GenI(Nx(r), d) b == GenIs(a[2], d, n - 1) IN <<<<a[1]>> \o b[1], b[2]>>

GenI(r0, d) ==
    LET r == Nx(r0)
        k == IF d = 0 THEN Pick(r, 6) ELSE Pick(r, 22)
        r1 == Nx(r)
        one == GenI(r1, d - 1)
        two == GenIs(r1, d - 1, 2)
    IN CASE k \in {0, 1} -> <<[o |-> IF k = 0 THEN "a" ELSE "b"], r1>>
         [] k = 2 -> <<[o |-> "const", c |-> Pick(r1, 4) - 1], r1>>
         [] k = 3 -> <<[o |-> "f"], r1>>
         [] k \in {4, 5} /\ d = 0 -> <<[o |-> "val", k |-> 1 + Pick(r1, 6), es |-> <<[o |-> IF k = 4 THEN "a" ELSE "b"]>>], Nx(r1)>>
         [] k \in {4, 5, 6, 7} -> <<[o |-> "val", k |-> 1 + Pick(r, 6), es |-> <<one[1]>>], one[2]>>
         [] k = 8 -> <<N("+", two[1]), two[2]>>
         [] k = 9 -> <<N(IF Pick(r, 2) = 0 THEN "-" ELSE "*", two[1]), two[2]>>
         [] k = 10 -> <<[o |-> IF Pick(r1, 2) = 0 THEN "//" ELSE "%", es |-> <<one[1]>>, c |-> <<2, 3, -2, -3>>[1 + Pick(r, 4)]], one[2]>>
         [] k = 11 -> <<N(IF Pick(r1, 2) = 0 THEN "neg" ELSE "abs", <<one[1]>>), one[2]>>
         [] k \in {12, 13} ->
              LET c == GenBo(r1, d - 1) x == GenIs(c[2], d - 1, 2)
              IN <<N("cond", <<x[1][1], c[1], x[1][2]>>), x[2]>>
         [] k \in {14, 15} -> <<N(IF k = 14 THEN "iand" ELSE "ior", two[1]), two[2]>>
         [] k = 16 -> <<N(IF Pick(r1, 2) = 0 THEN "max" ELSE "min", two[1]), two[2]>>
         [] k = 17 -> LET x == GenIs(r1, d - 1, 3) IN <<[o |-> "idx", es |-> x[1], c |-> Pick(r, 3)], x[2]>>
         [] k = 18 -> LET x == GenBo(r1, d - 1) IN <<N("int", <<x[1]>>), x[2]>>
         [] k = 19 -> <<[o |-> "two", k |-> 1 + Pick(r, 6), es |-> two[1], sw |-> Pick(r1, 2)], two[2]>>
         [] OTHER ->
              LET ks == << <<1>>, <<1, 2>>, <<1, 2, 3>>, <<1, 3>>, <<1, 3, 2>>, <<3, 1>>, <<2, 3, 1>> >>[1 + Pick(r, 7)]
                  x == GenIs(r1, d - 1, Len(ks))
              IN <<[o |-> "add3", es |-> x[1], ks |-> ks], x[2]>>

GenBo(r0, d) ==
    LET r == Nx(r0)
        k == IF d = 0 THEN Pick(r, 4) ELSE Pick(r, 17)
        r1 == Nx(r)
        one == GenBo(r1, d - 1)
        two == LET a == GenBo(r1, d - 1) b == GenBo(a[2], d - 1) IN <<<<a[1], b[1]>>, b[2]>>
    IN CASE k = 0 -> <<[o |-> "p"], r1>>
         [] k = 1 -> LET x == GenIs(r1, 0, 2) IN <<[o |-> "cmp", es |-> x[1], ops |-> <<Ops[1 + Pick(r, 6)]>>], x[2]>>
         [] k \in {2, 3} /\ d = 0 -> <<[o |-> "tick", k |-> 1 + Pick(r1, 6), es |-> <<[o |-> "p"]>>], Nx(r1)>>
         [] k \in {2, 3, 4} -> <<[o |-> "tick", k |-> 1 + Pick(r, 6), es |-> <<one[1]>>], one[2]>>
         [] k \in {5, 6} -> <<N("and", two[1]), two[2]>>
         [] k \in {7, 8} -> <<N("or", two[1]), two[2]>>
         [] k = 9 -> <<N("not", <<one[1]>>), one[2]>>
         [] k = 10 -> <<[o |-> "beq", es |-> two[1], c |-> Pick(r, 2) = 0], two[2]>>
         [] k = 11 -> LET x == GenIs(r1, d - 1, 3) IN <<[o |-> "in", es |-> x[1], c |-> Pick(r, 2) = 0], x[2]>>
         [] k = 12 -> LET x == GenI(r1, d - 1) IN <<N("bool", <<x[1]>>), x[2]>>
         [] k = 13 -> LET c == GenBo(r1, d - 1) x == GenBo(c[2], d - 1) y == GenBo(x[2], d - 1)
                      IN <<N("cond", <<x[1], c[1], y[1]>>), y[2]>>
         [] OTHER ->
              LET n == 1 + Pick(r, 3)
                  x == GenIs(r1, d - 1, n + 1)
              IN <<[o |-> "cmp", es |-> x[1], ops |-> [i \in 1..n |-> Ops[1 + Pick(r * i + i, 6)]]], x[2]>>

(* a statement: which context the expressions are used in *)
Gen(r0, d) ==
    LET r == Nx(Nx(r0))
        k == Pick(r, 7)
        x == GenIs(Nx(r), d, 1)
        b == GenBo(Nx(r), d)
        xs == GenIs(Nx(r), d - 1, 2)
    IN CASE k \in {0, 1} -> [o |-> "assign", es |-> x[1]]
         [] k \in {2, 3} -> [o |-> "if", es |-> <<b[1]>>]
         [] k = 4 -> [o |-> "tuple", es |-> xs[1]]
         [] k = 5 -> [o |-> "field", es |-> x[1]]
         [] OTHER -> [o |-> "list", es |-> xs[1]]

Code(st, v) == (st.t * 10 + st.f) * 1000 + v
Run(s, arg) ==
    LET st0 == [a |-> arg[1], b |-> arg[2], p |-> arg[3], t |-> 0, f |-> 1]
        r == Evs(s.es, 1, <<>>, st0)
    IN CASE s.o = "assign" -> Code(r.st, r.v[1])
         [] s.o = "if" -> Code(r.st, BInt(r.v[1]))
         [] s.o = "field" -> Code([r.st EXCEPT !.f = r.v[1]], 0)
         [] OTHER -> Code(r.st, r.v[1] * 3 + r.v[2])

Args == << <<0, 1, TRUE>>, <<1, 0, FALSE>>, <<2, -1, TRUE>>, <<-1, 2, FALSE>>, <<1, 1, TRUE>>, <<0, 2, FALSE>> >>

(*------------------------------ emission ---------------------------------*)
Lo == atoi(IOEnv.FLOW_LO)
Hi == atoi(IOEnv.FLOW_HI)
Depth == atoi(IOEnv.FLOW_DEPTH)
VARIABLE q
Init == q = 0
Next == /\ q <= Hi - Lo
        /\ LET s == Gen(Lo + q, Depth)
           IN PrintT(<<"OUT", ToJson([id |-> Lo + q, s |-> s, args |-> Args, exp |-> [n \in 1..Len(Args) |-> Run(s, Args[n])]])>>)
        /\ q' = q + 1
=============================================================================
