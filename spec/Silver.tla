------------------------------- MODULE Silver -------------------------------
(***************************************************************************)
(* Executable semantics of the Silver programs Nagini emits.               *)
(*                                                                         *)
(* A machine m runs one method of a program on concrete arguments.  The    *)
(* state is the heap, the permissions held by the current method, its      *)
(* local variables, the facts it may rely on, labelled and old heaps, the  *)
(* stack of suspended callers and loops.  One instruction is one step.     *)
(* Contracts are executed: calls exhale preconditions and inhale           *)
(* postconditions, loops exhale and inhale invariants, and the first check *)
(* that does not hold ends the run in a failure naming kind and line.      *)
(* Evaluation is three-valued (TRUE, FALSE, unknown) with errors.          *)
(*                                                                         *)
(* Values   <<"i",n>> Int, <<"b",B>> Bool, <<"q",n,d>> Perm,               *)
(*          <<"bi",n>> boxed int, <<"bb",B>> boxed bool, <<"null">>,       *)
(*          <<"o",id>> object, <<"t",f,args>> value known only as f(args), *)
(*          <<"ty",name,args>> type, <<"s",seq>>, <<"S",set>>,             *)
(*          <<"M",bag>>, <<"m",fcn>>, <<"big",digits>>, <<"u">> unknown,   *)
(*          <<"err",kind,line>>                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

D == JsonDeserialize(IOEnv.SILVER_INPUT)
Progs == D.progs
Cases == D.cases
QLO == -2            \* sample range of quantified integers
QHI == 9
MaxSteps == 6000

U == <<"u">>
TT == <<"b", TRUE>>
FF == <<"b", FALSE>>
B(x) == <<"b", x>>
I(n) == <<"i", n>>
Err(k, l) == <<"err", k, l>>
IsErr(x) == x[1] = "err"
IsU(x) == x[1] \in {"u", "inf"}
Null == <<"null">>
Ty(n) == <<"ty", n, <<>>>>

Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
SetBind(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(*------------------------------ arithmetic ------------------------------*)
LIM == 1000000000
SafeAdd(a, b) == IF Abs(a) > LIM \/ Abs(b) > LIM THEN U ELSE I(a + b)
SafeSub(a, b) == IF Abs(a) > LIM \/ Abs(b) > LIM THEN U ELSE I(a - b)
\* beyond LIM only the sign is known: <<"inf", 1>>, <<"inf", -1>>
SafeMul(a, b) == IF a # 0 /\ b # 0 /\ Abs(b) > LIM \div Abs(a) THEN <<"inf", IF (a > 0) = (b > 0) THEN 1 ELSE -1>> ELSE I(a * b)
Sign(v) == IF v[1] = "inf" THEN v[2] ELSE IF v[2] > 0 THEN 1 ELSE IF v[2] < 0 THEN -1 ELSE 0
InfOp(k, l, r) ==
    IF k = "mul" THEN (IF Sign(l) = 0 \/ Sign(r) = 0 THEN I(0) ELSE <<"inf", Sign(l) * Sign(r)>>)
    ELSE IF l[1] = r[1] \/ (l[1] = "i" /\ Abs(l[2]) > LIM) \/ (r[1] = "i" /\ Abs(r[2]) > LIM) THEN U
    ELSE LET less == IF l[1] = "inf" THEN l[2] < 0 ELSE r[2] > 0
         IN CASE k \in {"lt", "le"} -> <<"b", less>> [] k \in {"gt", "ge"} -> <<"b", ~less>> [] OTHER -> U
\* Silver's integer division is Euclidean: the remainder is never negative
EDiv(a, b) == IF b > 0 THEN a \div b ELSE -(a \div (-b))
EMod(a, b) == a % Abs(b)

\* permission amounts
Q(n, d) == IF d = 0 THEN U
           ELSE LET s == IF d < 0 THEN -1 ELSE 1
                    g == GCD(Abs(n), Abs(d))
                IN IF g = 0 THEN <<"q", 0, 1>> ELSE <<"q", (s * n) \div g, (s * d) \div g>>
Q0 == <<"q", 0, 1>>
Q1 == <<"q", 1, 1>>
QOk(p) == Abs(p[2]) < 20000 /\ p[3] < 20000
QAdd(p, q) == IF QOk(p) /\ QOk(q) THEN Q(p[2] * q[3] + q[2] * p[3], p[3] * q[3]) ELSE p
QSub(p, q) == IF QOk(p) /\ QOk(q) THEN Q(p[2] * q[3] - q[2] * p[3], p[3] * q[3]) ELSE p
\* an amount read off an expression: numbers are promoted
AsQ(v) == IF v[1] = "q" THEN v ELSE IF v[1] = "i" THEN <<"q", v[2], 1>> ELSE v
QScale(p, q) == IF p[1] \in {"q", "i"} /\ QOk(AsQ(p)) /\ QOk(q) THEN Q(AsQ(p)[2] * q[2], AsQ(p)[3] * q[3]) ELSE p
QDiv2(p) == Q(p[2], 2 * p[3])
QLe(p, q) == p[2] * q[3] <= q[2] * p[3]
QLt(p, q) == p[2] * q[3] < q[2] * p[3]
QPos(p) == p[2] > 0

(*------------------------- bit vectors (width 64) ------------------------*)
RECURSIVE BitOp(_, _, _, _)
BitOp(op, a, b, w) ==
    IF w = 0 THEN 0
    ELSE LET x == a % 2  y == b % 2
             z == CASE op = "and" -> x * y
                    [] op = "or"  -> IF x + y > 0 THEN 1 ELSE 0
                    [] OTHER      -> (x + y) % 2
         IN z + 2 * BitOp(op, a \div 2, b \div 2, w - 1)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(*--------------------------- tables of a program -------------------------*)
Prog(m) == Progs[m.prog]
HasFun(m, f) == f \in DOMAIN Prog(m).funcs
Fun(m, f) == Prog(m).funcs[f]
Meth(m, f) == Prog(m).meths[f]

(*------------------------------ type model -------------------------------*)
\* direct superclass of a type, from the extends_ axioms the program carries
TyTerm(e, ps, args) ==
    LET RECURSIVE Go(_)
        Go(x) == IF x.k = "var" THEN IF \E i \in 1..Len(ps) : ps[i] = x.n
                                     THEN args[CHOOSE i \in 1..Len(ps) : ps[i] = x.n] ELSE U
                 ELSE IF x.k = "dom" THEN <<"ty", x.n, TLCEval([i \in 1..Len(x.a) |-> Go(x.a[i])])>>
                 ELSE IF x.k = "seq" THEN <<"s", TLCEval([i \in 1..Len(x.a) |-> Go(x.a[i])])>>
                 ELSE U
    IN Go(e)
Supers(m, t) ==
    {TyTerm(x.sup, x.ps, t[3]) : x \in {y \in Range(Prog(m).ext) : y.c = t[2] /\ Len(y.ps) = Len(t[3])}}
IsUnion(t) == t[2] \in {"union_type_1", "union_type_2", "union_type_3", "union_type_4"}
And3(x, y) == IF x = FF \/ y = FF THEN FF ELSE IF IsU(x) \/ IsU(y) THEN U ELSE TT
Or3(x, y) == IF x = TT \/ y = TT THEN TT ELSE IF IsU(x) \/ IsU(y) THEN U ELSE FF
Not3(x) == IF x = TT THEN FF ELSE IF x = FF THEN TT ELSE x
RECURSIVE All3(_)
All3(s) == IF s = <<>> THEN TT ELSE And3(Head(s), All3(Tail(s)))
RECURSIVE Any3(_)
Any3(s) == IF s = <<>> THEN FF ELSE Or3(Head(s), Any3(Tail(s)))

RECURSIVE SubTy(_, _, _)
SubTy(m, a, b) ==
    IF IsU(a) \/ IsU(b) THEN (IF b = Ty("object") THEN TT ELSE U)
    ELSE IF a = b \/ b = Ty("object") THEN TT
    ELSE IF a[1] # "ty" \/ b[1] # "ty" THEN U
    ELSE IF IsUnion(a) THEN All3([i \in 1..Len(a[3]) |-> SubTy(m, a[3][i], b)])
    ELSE IF IsUnion(b) THEN Any3([i \in 1..Len(b[3]) |-> SubTy(m, a, b[3][i])])
    ELSE IF a[2] = "tuple" /\ b[2] = "tuple" THEN
        IF IsU(a[3][1]) \/ IsU(b[3][1]) THEN U
        ELSE IF Len(a[3][1][2]) # Len(b[3][1][2]) THEN FF
        ELSE All3([i \in 1..Len(a[3][1][2]) |-> SubTy(m, a[3][1][2][i], b[3][1][2][i])])
    ELSE IF a[2] = "tuple" /\ b[2] = "tuple_var" THEN
        IF IsU(a[3][1]) THEN U ELSE All3([i \in 1..Len(a[3][1][2]) |-> SubTy(m, a[3][1][2][i], b[3][1])])
    ELSE IF a[2] = "tuple_var" /\ b[2] = "tuple_var" THEN SubTy(m, a[3][1], b[3][1])
    ELSE IF a[2] = b[2] /\ Len(a[3]) = Len(b[3]) /\ a[3] # <<>> THEN
        \* generic classes are invariant
        IF \E i \in 1..Len(a[3]) : IsU(a[3][i]) \/ IsU(b[3][i]) THEN U ELSE FF
    ELSE LET ss == Supers(m, a)
         IN IF \E s \in ss : SubTy(m, s, b) = TT THEN TT
            ELSE IF \E s \in ss : IsU(SubTy(m, s, b)) THEN U ELSE FF

ArgOf(t, i) ==       \* list_arg(t, i) and friends
    IF t[1] # "ty" THEN U
    ELSE IF t[2] = "tuple" THEN (IF IsU(t[3][1]) \/ i < 0 \/ i >= Len(t[3][1][2]) THEN U ELSE t[3][1][2][i + 1])
    ELSE IF i >= 0 /\ i < Len(t[3]) THEN t[3][i + 1] ELSE U

\* C_arg(t, i): the argument of the generic class C that a type inherits from
RECURSIVE UpTo(_, _, _)
UpTo(m, t, c) ==
    IF t[1] # "ty" THEN U
    ELSE IF t[2] = c THEN t
    ELSE LET us == {UpTo(m, s, c) : s \in Supers(m, t)} \ {U}
         IN IF us = {} THEN U ELSE CHOOSE u \in us : TRUE
GenericOf(m, fn) == {x.c : x \in {y \in Range(Prog(m).ext) : y.ps # <<>> /\ y.c \o "_arg" = fn}}
(*------------------------------- equality --------------------------------*)
INJ == {"str___create__", "PSeq___create__", "PByteSeq___create__"}
RECURSIVE VEq(_, _)
VEq(x, y) ==
    IF IsErr(x) THEN x ELSE IF IsErr(y) THEN y
    ELSE IF IsU(x) \/ IsU(y) THEN U
    ELSE IF x[1] = "s" /\ y[1] = "s" THEN
        IF Len(x[2]) # Len(y[2]) THEN FF ELSE All3([i \in 1..Len(x[2]) |-> VEq(x[2][i], y[2][i])])
    ELSE IF x[1] = "S" /\ y[1] = "S" THEN
        IF x = y THEN TT ELSE IF \E e \in x[2] \cup y[2] : e[1] \in {"u", "t"} THEN U ELSE FF
    ELSE IF x[1] = "m" /\ y[1] = "m" THEN
        IF DOMAIN x[2] # DOMAIN y[2] THEN (IF \E e \in DOMAIN x[2] \cup DOMAIN y[2] : e[1] = "t" THEN U ELSE FF)
        ELSE IF x[2] = y[2] THEN TT
        ELSE IF \E e \in DOMAIN x[2] : VEq(x[2][e], y[2][e]) = FF THEN FF ELSE U
    ELSE IF x[1] = "M" /\ y[1] = "M" THEN (IF x = y THEN TT ELSE FF)
    ELSE IF x[1] = "ty" /\ y[1] = "ty" THEN
        IF x[2] # y[2] THEN FF
        ELSE IF Len(x[3]) # Len(y[3]) THEN FF
        ELSE All3([i \in 1..Len(x[3]) |-> VEq(x[3][i], y[3][i])])
    ELSE IF x = y THEN TT
    ELSE IF x[1] = "t" /\ y[1] = "t" THEN
        IF x[2] = y[2] /\ x[2] \in INJ /\ Len(x[3]) = Len(y[3])
        THEN All3([i \in 1..Len(x[3]) |-> VEq(x[3][i], y[3][i])]) ELSE U
    ELSE IF (x[1] = "t" /\ y[1] = "o") \/ (x[1] = "o" /\ y[1] = "t") THEN U
    ELSE FF

SeqIn(x, s) == Any3([i \in 1..Len(s) |-> VEq(x, s[i])])
SetIn(x, S) == IF x \in S THEN TT
               ELSE IF IsU(x) \/ U \in S THEN (IF S = {} THEN FF ELSE U)
               ELSE IF \E e \in S : VEq(x, e) = TT THEN TT
               ELSE IF \E e \in S : IsU(VEq(x, e)) THEN U ELSE FF
BagGet(b, x) == IF x \in DOMAIN b THEN b[x] ELSE 0
BagOf(s) == [x \in Range(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
BagCard(b) == LET RECURSIVE Go(_)
                  Go(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN b[x] + Go(S \ {x})
              IN Go(DOMAIN b)
BagNorm(b) == [x \in {y \in DOMAIN b : b[y] > 0} |-> b[x]]

(*----------------------------- heap, permission --------------------------*)
PermAt(P, k) == IF k \in DOMAIN P THEN P[k] ELSE Q0
HeapAt(m, k) == IF k \in DOMAIN m.H THEN m.H[k] ELSE U
SetPerm(P, k, q) == SetBind(P, k, q)
\* perm() and forperm see what an exhale under way has left
HeldIn(m) == IF m.xp = <<>> THEN m.P ELSE m.xp[1]

(*------------------------------- evaluation ------------------------------*)
RECURSIVE Eval(_, _)
RECURSIVE Facts(_, _)
RECURSIVE EvalAll(_, _, _, _)
RECURSIVE App(_, _, _, _)
RECURSIVE Dom(_, _, _, _)
RECURSIVE TypeOf(_, _)
RECURSIVE Observe(_, _, _)
RECURSIVE Quant(_, _, _, _)
RECURSIVE QuantVals(_, _, _, _, _)
RECURSIVE Exh(_, _, _)
RECURSIVE ExhAll(_, _, _, _)
RECURSIVE ExhVals(_, _, _, _, _, _)
RECURSIVE Cand(_, _)
RECURSIVE CandAll(_, _, _)
RECURSIVE CandSeq(_, _)
RECURSIVE ObsIn(_, _, _, _)
RECURSIVE InhAll(_, _, _, _)

With(m, x, v) == [m EXCEPT !.v = SetBind(@, x, v)]
\* first error, else unknown, else "ok"
Bad(vs) == IF \E i \in 1..Len(vs) : IsErr(vs[i])
           THEN vs[CHOOSE i \in 1..Len(vs) : IsErr(vs[i]) /\ \A j \in 1..(i-1) : ~IsErr(vs[j])]
           ELSE IF \E i \in 1..Len(vs) : IsU(vs[i]) THEN U ELSE <<"ok">>

EvalAll(es, i, acc, m) ==
    IF i > Len(es) THEN acc
    ELSE LET v == Eval(es[i], m)
         IN IF IsErr(v) THEN Append(acc, v) ELSE EvalAll(es, i + 1, Append(acc, v), m)

\* the sequences of measures at hand
MeasureVars(m) == {x \in DOMAIN m.v : m.v[x][1] = "s" /\ \A i \in 1..Len(m.v[x][2]) : m.v[x][2][i][1] = "ms"}
\* values a bound variable ranges over in the model
Universe(t, m) ==
    CASE t = "Int" -> [i \in 1..(QHI - QLO + 1) |-> I(QLO + i - 1)] \o SelectSeq(m.terms, LAMBDA x : x[1] = "i")
      [] t = "Ref" -> [i \in 1..(QHI - QLO + 1) |-> <<"bi", QLO + i - 1>>]
                      \o << <<"bb", TRUE>>, <<"bb", FALSE>>, Null >>
                      \o [i \in 1..m.N |-> <<"o", i>>] \o SelectSeq(m.terms, LAMBDA x : x[1] # "i")
      [] t = "Bool" -> <<TT, FF>>
      [] t = "Measure$" -> LET RECURSIVE Go(_)
                               Go(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN m.v[x][2] \o Go(X \ {x})
                           IN Go(MeasureVars(m))
      [] OTHER -> <<>>

Strict2(e, l, r) ==
    LET k == e.k IN
    CASE k = "eq" -> VEq(l, r)
      [] k = "ne" -> Not3(VEq(l, r))
      [] k = "add" -> IF l[1] = "i" /\ r[1] = "i" THEN SafeAdd(l[2], r[2]) ELSE U
      [] k = "sub" -> IF l[1] = "i" /\ r[1] = "i" THEN SafeSub(l[2], r[2]) ELSE U
      [] k = "mul" -> IF l[1] = "i" /\ r[1] = "i" THEN SafeMul(l[2], r[2]) ELSE U
      [] k \in {"lt", "le", "gt", "ge"} ->
            IF l[1] = "i" /\ r[1] = "i"
            THEN B(CASE k = "lt" -> l[2] < r[2] [] k = "le" -> l[2] <= r[2]
                     [] k = "gt" -> l[2] > r[2] [] OTHER -> l[2] >= r[2]) ELSE U
      [] k = "div" -> IF l[1] # "i" \/ r[1] # "i" THEN U
                      ELSE IF r[2] = 0 THEN Err("div0", e.p) ELSE I(EDiv(l[2], r[2]))
      [] k = "mod" -> IF l[1] # "i" \/ r[1] # "i" THEN U
                      ELSE IF r[2] = 0 THEN Err("div0", e.p) ELSE I(EMod(l[2], r[2]))
      [] k = "sapp" -> <<"s", l[2] \o r[2]>>
      [] k = "sin" -> SeqIn(l, r[2])
      [] k = "setin" -> SetIn(l, r[2])
      [] k = "msnum" -> I(BagGet(r[2], l))
      [] k = "min" -> SetIn(l, DOMAIN r[2])
      [] k = "union" -> <<"S", l[2] \cup r[2]>>
      [] k = "inter" -> <<"S", l[2] \cap r[2]>>
      [] k = "minus" -> <<"S", l[2] \ r[2]>>
      [] k = "subset" -> B(l[2] \subseteq r[2])
      [] k = "msunion" -> <<"M", [x \in DOMAIN l[2] \cup DOMAIN r[2] |-> BagGet(l[2], x) + BagGet(r[2], x)]>>
      [] k = "msminus" -> <<"M", BagNorm([x \in DOMAIN l[2] |->
                              IF l[2][x] > BagGet(r[2], x) THEN l[2][x] - BagGet(r[2], x) ELSE 0])>>
      [] k = "msinter" -> <<"M", BagNorm([x \in DOMAIN l[2] |->
                              IF l[2][x] < BagGet(r[2], x) THEN l[2][x] ELSE BagGet(r[2], x)])>>
      [] k = "mssubset" -> B(\A x \in DOMAIN l[2] : l[2][x] <= BagGet(r[2], x))
      [] k = "frac" -> IF l[1] = "i" /\ r[1] = "i" THEN Q(l[2], r[2]) ELSE U
      [] k = "padd" -> QAdd(AsQ(l), AsQ(r))
      [] k = "psub" -> QSub(AsQ(l), AsQ(r))
      [] k \in {"pmul", "ipmul"} -> LET a == AsQ(l) b == AsQ(r)
                                    IN IF QOk(a) /\ QOk(b) THEN Q(a[2] * b[2], a[3] * b[3]) ELSE U
      [] k = "pdiv" -> LET a == AsQ(l) IN IF r[1] = "i" /\ QOk(a) THEN Q(a[2], a[3] * r[2]) ELSE U
      [] k = "plt" -> B(QLt(AsQ(l), AsQ(r)))
      [] k = "ple" -> B(QLe(AsQ(l), AsQ(r)))
      [] k = "pgt" -> B(QLt(AsQ(r), AsQ(l)))
      [] k = "pge" -> B(QLe(AsQ(r), AsQ(l)))
      [] k = "range" -> <<"s", IF r[2] <= l[2] THEN <<>> ELSE [i \in 1..(r[2] - l[2]) |-> I(l[2] + i - 1)]>>
      [] k = "idx" -> IF r[1] # "i" THEN U
                      ELSE IF r[2] < 0 \/ r[2] >= Len(l[2]) THEN Err("seqidx", e.p) ELSE l[2][r[2] + 1]
      [] k = "take" -> LET n == r[2] IN <<"s", IF n <= 0 THEN <<>> ELSE SubSeq(l[2], 1, IF n > Len(l[2]) THEN Len(l[2]) ELSE n)>>
      [] k = "drop" -> LET n == r[2] IN <<"s", IF n <= 0 THEN l[2] ELSE IF n >= Len(l[2]) THEN <<>> ELSE SubSeq(l[2], n + 1, Len(l[2]))>>
      [] k = "mget" -> LET c == SetIn(r, DOMAIN l[2])
                       IN IF c = FF THEN Err("mapkey", e.p) ELSE IF r \in DOMAIN l[2] THEN l[2][r] ELSE U
      [] OTHER -> U

Eval(e, m) ==
    LET k == e.k IN
    CASE k = "var" -> IF e.n \in DOMAIN m.v THEN m.v[e.n] ELSE U
      [] k = "int" -> <<"i", e.n>>
      [] k = "app" -> LET as == EvalAll(e.a, 1, <<>>, m)
                      IN IF as # <<>> /\ IsErr(as[Len(as)]) THEN as[Len(as)] ELSE App(e.n, as, e.p, m)
      [] k = "dom" -> LET as == EvalAll(e.a, 1, <<>>, m)
                      IN IF as # <<>> /\ IsErr(as[Len(as)]) THEN as[Len(as)] ELSE Dom(e.n, as, e.p, m)
      [] k = "and" -> LET l == Eval(e.a[1], m)
                      IN IF IsErr(l) \/ l = FF THEN l
                         ELSE LET r == Eval(e.a[2], m) IN
                              IF IsU(l) THEN (IF r = FF THEN FF ELSE U) ELSE r
      [] k = "or" -> LET l == Eval(e.a[1], m)
                     IN IF IsErr(l) \/ l = TT THEN l
                        ELSE LET r == Eval(e.a[2], m) IN
                             IF IsU(l) THEN (IF r = TT THEN TT ELSE U) ELSE r
      [] k = "imp" -> LET l == Eval(e.a[1], m)
                      IN IF IsErr(l) THEN l ELSE IF l = FF THEN TT
                         ELSE LET r == Eval(e.a[2], m) IN
                              IF IsU(l) THEN (IF r = TT THEN TT ELSE U) ELSE r
      [] k = "not" -> Not3(Eval(e.a[1], m))
      [] k = "cond" -> LET c == Eval(e.a[1], m)
                       IN IF c = TT THEN Eval(e.a[2], m) ELSE IF c = FF THEN Eval(e.a[3], m)
                          ELSE IF IsErr(c) THEN c
                          ELSE LET x == Eval(e.a[2], m) y == Eval(e.a[3], m) IN IF x = y /\ ~IsErr(x) THEN x ELSE U
      [] k = "fld" -> LET r == Eval(e.a[1], m)
                      IN IF IsErr(r) \/ IsU(r) THEN r
                         ELSE IF r = Null \/ ~QPos(PermAt(m.P, <<r, e.n>>)) THEN Err("perm", e.p)
                         ELSE HeapAt(m, <<r, e.n>>)
      [] k = "true" -> TT
      [] k = "false" -> FF
      [] k = "null" -> Null
      [] k = "neg" -> LET r == Eval(e.a[1], m) IN IF r[1] = "i" THEN I(-r[2]) ELSE IF IsErr(r) THEN r ELSE U
      [] k = "old" -> Eval(e.a[1], [m EXCEPT !.H = m.oH, !.P = m.oP])
      [] k = "lold" -> IF e.n \in DOMAIN m.labs
                       THEN Eval(e.a[1], [m EXCEPT !.H = m.labs[e.n].H, !.P = m.labs[e.n].P]) ELSE U
      [] k = "let" -> LET v == Eval(e.a[1], m)
                          fs == Facts(e.a[1], m)
                      IN IF IsErr(v) THEN v
                         ELSE Eval(e.a[2], With(IF fs = {} THEN m
                                 ELSE [m EXCEPT !.O = [x \in DOMAIN m.O \cup fs |-> IF x \in fs THEN TT ELSE m.O[x]]], e.n, v))
      [] k = "all" -> Quant(TRUE, e, 1, m)
      [] k = "ex" -> Quant(FALSE, e, 1, m)
      [] k \in {"seq", "set", "mset", "map"} ->
            LET vs == EvalAll(e.a, 1, <<>>, m)
            IN IF vs # <<>> /\ IsErr(vs[Len(vs)]) THEN vs[Len(vs)]
               ELSE IF k = "seq" THEN <<"s", vs>>
               ELSE IF k = "set" THEN <<"S", Range(vs)>>
               ELSE IF k = "mset" THEN <<"M", BagOf(vs)>>
               ELSE <<"m", [x \in {vs[2 * i - 1] : i \in 1..(Len(vs) \div 2)} |->
                        vs[2 * (CHOOSE i \in 1..(Len(vs) \div 2) :
                              vs[2 * i - 1] = x /\ \A j \in (i+1)..(Len(vs) \div 2) : vs[2 * j - 1] # x)]]>>
      [] k = "len" -> LET r == Eval(e.a[1], m) IN IF r[1] = "s" THEN I(Len(r[2])) ELSE IF IsErr(r) THEN r ELSE U
      [] k = "card" -> LET r == Eval(e.a[1], m)
                       IN IF r[1] = "S" THEN (IF \E x, y \in r[2] : x # y /\ IsU(VEq(x, y)) THEN U ELSE I(Cardinality(r[2])))
                          ELSE IF r[1] = "M" THEN I(BagCard(r[2]))
                          ELSE IF IsErr(r) THEN r ELSE U
      [] k = "mcard" -> LET r == Eval(e.a[1], m) IN IF r[1] = "m" THEN I(Cardinality(DOMAIN r[2])) ELSE IF IsErr(r) THEN r ELSE U
      [] k = "mdom" -> LET r == Eval(e.a[1], m) IN IF r[1] = "m" THEN <<"S", DOMAIN r[2]>> ELSE IF IsErr(r) THEN r ELSE U
      [] k = "mran" -> LET r == Eval(e.a[1], m) IN IF r[1] = "m" THEN <<"S", {r[2][x] : x \in DOMAIN r[2]}>> ELSE IF IsErr(r) THEN r ELSE U
      [] k = "upd" -> LET vs == EvalAll(e.a, 1, <<>>, m)
                      IN IF IsErr(vs[Len(vs)]) THEN vs[Len(vs)]
                         ELSE IF IsU(vs[1]) \/ IsU(vs[2]) THEN U
                         ELSE IF vs[2][2] < 0 \/ vs[2][2] >= Len(vs[1][2]) THEN Err("seqidx", e.p)
                         ELSE <<"s", [vs[1][2] EXCEPT ![vs[2][2] + 1] = vs[3]]>>
      [] k = "mupd" -> LET vs == EvalAll(e.a, 1, <<>>, m)
                       IN IF IsErr(vs[Len(vs)]) THEN vs[Len(vs)]
                          ELSE IF IsU(vs[1]) \/ IsU(vs[2]) THEN U
                          ELSE <<"m", SetBind(vs[1][2], vs[2], vs[3])>>
      [] k = "full" -> Q1
      [] k = "noperm" -> Q0
      [] k = "wild" -> <<"w">>
      [] k = "permf" -> LET r == Eval(e.a[1], m) IN IF IsErr(r) \/ IsU(r) THEN r ELSE PermAt(HeldIn(m), <<r, e.n>>)
      [] k = "permp" -> LET as == EvalAll(e.a, 1, <<>>, m) bad == Bad(as)
                        IN IF bad[1] # "ok" THEN bad ELSE PermAt(HeldIn(m), <<"p", e.n, as>>)
      [] k = "pneg" -> LET r == Eval(e.a[1], m) IN IF r[1] \in {"q", "i"} THEN QSub(Q0, AsQ(r)) ELSE r
      [] k = "unfolding" ->
            LET pa == e.a[1]
                as == EvalAll(SubSeq(pa.a, 2, Len(pa.a)), 1, <<>>, m)
                q == Eval(pa.a[1], m)
                bad == Bad(as)
            IN IF IsErr(bad) THEN bad ELSE IF IsU(bad) THEN U
               ELSE LET have == PermAt(m.P, <<"p", pa.n, as>>)
                    IN IF ~QPos(have) \/ (q[1] = "q" /\ ~QLe(q, have)) THEN Err("perm", pa.p)
                       ELSE LET pd == Prog(m).preds[pa.n]
                                env == [x \in Range(pd.args) |-> as[CHOOSE i \in 1..Len(as) : pd.args[i] = x]]
                                m2 == InhAll(pd.body, env, [m EXCEPT !.v = env], 0)
                            IN Eval(e.a[2], [m EXCEPT !.P = m2.P, !.H = m2.H, !.N = m2.N, !.T = m2.T])
      [] k = "asserting" -> LET x == Exh(e.a[1], m, m.P)
                            IN IF x.s = "fail" THEN Err("assert", e.p) ELSE Eval(e.a[2], m)
      [] k = "forperm" ->
            \* the bound variables range over the resources currently held
            LET held == HeldIn(m)
                locs == {l \in DOMAIN held : QPos(held[l]) /\ ((Len(l) = 2 /\ l[2] = e.n) \/ (Len(l) = 3 /\ l[2] = e.n))}
                vals == {LET as == IF Len(l) = 2 THEN <<l[1]>> ELSE l[3]
                             ps == SubSeq(e.a, 2, Len(e.a))
                             bound == {v.n : v \in Range(e.vs)}
                             ok == \A i \in 1..Len(ps) : (ps[i].k = "var" /\ ps[i].n \in bound) \/ VEq(Eval(ps[i], m), as[i]) # FF
                             m2 == [m EXCEPT !.v = [x \in DOMAIN m.v \cup bound |->
                                       IF x \in bound /\ \E i \in 1..Len(ps) : ps[i].k = "var" /\ ps[i].n = x
                                       THEN as[CHOOSE i \in 1..Len(ps) : ps[i].k = "var" /\ ps[i].n = x]
                                       ELSE IF x \in DOMAIN m.v THEN m.v[x] ELSE U]]
                         IN IF ok THEN Eval(e.a[1], m2) ELSE TT : l \in locs}
            IN IF FF \in vals THEN FF
               ELSE IF \E x \in vals : IsErr(x) THEN CHOOSE x \in vals : IsErr(x)
               ELSE IF U \in vals THEN U ELSE TT
      [] k = "pinst" -> LET as == EvalAll(e.a, 1, <<>>, m) IN <<"pi", e.n, as>>
      [] k = "low" -> TT
      [] k = "ie" -> Eval(e.a[2], m)
      [] k = "big" -> <<"big", e.n>>
      [] k = "acc" -> LET x == Exh(e, m, m.P) IN IF x.s = "fail" THEN FF ELSE IF x.s = "ok" THEN TT ELSE U
      [] k = "pacc" -> LET x == Exh(e, m, m.P) IN IF x.s = "fail" THEN FF ELSE IF x.s = "ok" THEN TT ELSE U
      [] k = "unsup" -> U
      [] Len(e.a) = 2 ->
            LET l == Eval(e.a[1], m) IN
            IF IsErr(l) THEN l
            ELSE LET r == Eval(e.a[2], m) IN
                 IF IsErr(r) THEN r
                 ELSE IF "inf" \in {l[1], r[1]} /\ {l[1], r[1]} \subseteq {"inf", "i"} THEN InfOp(k, l, r)
                 ELSE IF IsU(l) \/ IsU(r) THEN
                    (IF k = "sin" /\ r = <<"s", <<>>>> THEN FF
                     ELSE IF k = "setin" /\ r = <<"S", {}>> THEN FF
                     ELSE IF k = "union" /\ l[1] = "S" /\ l[2] = {} THEN r ELSE U)
                 ELSE IF l[1] = "w" \/ r[1] = "w" THEN
                    (IF k = "pgt" /\ l[1] = "w" THEN TT ELSE IF k = "plt" /\ r[1] = "w" THEN TT ELSE <<"w">>)
                 ELSE Strict2(e, l, r)
      [] OTHER -> U

\* Bounded quantifiers, decided on the sample universe
Quant(univ, e, i, m) ==
    IF i > Len(e.vs) THEN Eval(e.a[1], m)
    ELSE LET uni == Universe(e.vs[i].t, m)
         IN IF uni = <<>> THEN (IF e.vs[i].t = "Measure$" /\ MeasureVars(m) # {} THEN B(univ) ELSE U) ELSE QuantVals(univ, e, i, m, uni)
QuantVals(univ, e, i, m, uni) ==
    LET RECURSIVE Go(_, _)
        Go(j, acc) == IF j > Len(uni) THEN acc
                      ELSE LET v == Quant(univ, e, i + 1, With(m, e.vs[i].n, uni[j]))
                           IN IF IsErr(v) THEN v
                              ELSE IF univ /\ v = FF THEN FF
                              ELSE IF ~univ /\ v = TT THEN TT
                              ELSE Go(j + 1, IF IsU(v) THEN U ELSE acc)
    IN Go(1, IF univ THEN TT ELSE FF)

(*------------------------------- functions -------------------------------*)
\* a function r, fact |-> r whose postcondition is the fact: the fact holds where the value is used
IsAssuming(f) == ~f.hasbody /\ Len(f.args) = 2 /\ \E i \in 1..Len(f.posts) : f.posts[i].k = "var" /\ f.posts[i].n = f.args[2]
Facts(e, m) ==
    IF e.k = "app" THEN
        (IF HasFun(m, e.n) /\ Len(e.a) = 2 THEN
            (IF IsAssuming(Fun(m, e.n))
             THEN Facts(e.a[1], m) \cup (IF e.a[2].k = "app" THEN {<<e.a[2].n, EvalAll(e.a[2].a, 1, <<>>, m)>>} ELSE {})
             ELSE {})
         ELSE {})
    ELSE IF e.k = "cond" THEN
        LET c == Eval(e.a[1], m) IN IF c = TT THEN Facts(e.a[2], m) ELSE IF c = FF THEN Facts(e.a[3], m) ELSE {}
    ELSE {}

TypeOf(x, m) ==
    CASE x[1] = "bi" -> Ty("int")
      [] x[1] = "bb" -> Ty("bool")
      [] x[1] = "null" -> Ty("NoneType")
      [] x[1] = "o" -> IF x[2] \in DOMAIN m.T THEN m.T[x[2]] ELSE U
      [] x[1] = "t" -> Observe("typeof", <<x>>, m)
      [] OTHER -> U

\* functions whose meaning Silver's encoding fixes by mutually inverse axioms
PRIM == {"__prim__int___box__", "int___unbox__", "__prim__bool___box__", "bool___unbox__"}
CLOSED == {"_isDefined"}

Env(f, as) == [x \in Range(f.args) |-> as[CHOOSE i \in 1..Len(as) : f.args[i] = x]]

EqObj(x, y, m) ==      \* object___eq__: Python's == where the encoding fixes it
    LET num(z) == IF z[1] = "bi" THEN z[2] ELSE IF z[2] THEN 1 ELSE 0
    IN IF IsU(x) \/ IsU(y) THEN U
       ELSE IF x = y THEN TT
       ELSE IF x = Null \/ y = Null THEN FF
       ELSE IF x[1] \in {"bi", "bb"} /\ y[1] \in {"bi", "bb"} THEN B(num(x) = num(y))
       ELSE IF x[1] = "t" /\ y[1] = "t" THEN
            LET tx == TypeOf(x, m) ty == TypeOf(y, m)
            IN IF tx = Ty("str") /\ ty = Ty("str")
               THEN VEq(Observe("str___val__", <<x>>, m), Observe("str___val__", <<y>>, m)) ELSE U
       ELSE IF <<"object___eq__", <<x, y>>>> \in DOMAIN m.O THEN m.O[<<"object___eq__", <<x, y>>>>]
       ELSE U

App(fn, as, p, m) ==
    IF fn \in PRIM THEN
        LET x == as[1] IN
        IF IsU(x) THEN U
        ELSE CASE fn = "__prim__int___box__" -> IF x[1] = "i" THEN <<"bi", x[2]>> ELSE <<"t", "bigint", <<x>>>>
               [] fn = "__prim__bool___box__" -> <<"bb", x[2]>>
               [] fn = "int___unbox__" ->
                    IF x[1] = "bi" THEN I(x[2])
                    ELSE IF x[1] = "bb" THEN I(IF x[2] THEN 1 ELSE 0)
                    ELSE IF x[1] = "t" /\ x[2] = "bigint" THEN x[3][1]
                    ELSE IF SubTy(m, TypeOf(x, m), Ty("int")) = FF THEN Err("apppre", p)
                    ELSE Observe("int___unbox__", as, m)
               [] OTHER ->
                    IF x[1] = "bb" THEN B(x[2])
                    ELSE IF SubTy(m, TypeOf(x, m), Ty("bool")) = FF THEN Err("apppre", p)
                    ELSE U
    ELSE IF ~HasFun(m, fn) THEN U
    ELSE LET f == Fun(m, fn)
             m1 == [m EXCEPT !.v = Env(f, as)]
             pre == IF f.pres = <<>> THEN [s |-> "ok"] ELSE ExhAll(f.pres, 1, m1, m.P)
         IN IF pre.s = "fail" THEN Err("apppre", IF p = 0 THEN pre.l ELSE p)
            ELSE IF IsAssuming(f) THEN as[1]
            ELSE IF f.hasbody THEN
                LET r == Eval(f.body, m1)
                    r1 == IF IsErr(r) /\ r[3] = 0 THEN Err(r[2], p) ELSE r
                IN IF f.user /\ f.posts # <<>> /\ ~IsErr(r1) THEN
                       LET po == ExhAll(f.posts, 1, With(m1, "$res", r1), m.P)
                       IN IF po.s = "fail" THEN Err("fpost", po.l) ELSE r1
                   ELSE r1
            ELSE IF <<fn, as>> \in DOMAIN m.O THEN m.O[<<fn, as>>]
            ELSE LET c == IF f.posts = <<>> THEN <<"none">> ELSE CandAll(f.posts, 1, m1)
                     c2 == IF c[1] # "none" THEN c ELSE IF f.seq THEN CandSeq(f.posts, m1) ELSE c
                     o == IF c2[1] # "none" THEN c2 ELSE Observe(fn, as, m)
                 IN IF ~IsU(o) /\ o[1] # "none" THEN
                       (IF m.chk /\ ~IsErr(o) /\ ExhAll(f.posts, 1, With([m1 EXCEPT !.chk = FALSE], "$res", o), m.P).s = "fail"
                        THEN Err("badcontract", p) ELSE o)
                    ELSE IF f.ret = "Bool" THEN (IF fn \in CLOSED /\ Bad(as)[1] = "ok" THEN FF ELSE U)
                    ELSE IF f.ret = "Ref" /\ Bad(as)[1] = "ok" THEN
                        LET t == <<"t", fn, as>>
                            sv == IF fn = "str___create__" THEN U ELSE Observe("str___val__", <<t>>, m)
                        IN IF sv[1] = "s" THEN <<"t", "str___create__", <<I(Len(sv[2])), sv>>>> ELSE t
                    ELSE U

\* the value a postcondition assigns to the result, if it does
CandAll(ps, i, m) ==
    IF i > Len(ps) THEN <<"none">>
    ELSE LET c == Cand(ps[i], m) IN IF c[1] \in {"none", "u"} THEN CandAll(ps, i + 1, m) ELSE c
Cand(e, m) ==
    LET k == e.k IN
    CASE k = "eq" -> IF e.a[1].k = "var" /\ e.a[1].n = "$res" /\ ~e.a[2].res THEN Eval(e.a[2], m)
                     ELSE IF e.a[2].k = "var" /\ e.a[2].n = "$res" /\ ~e.a[1].res THEN Eval(e.a[1], m)
                     ELSE <<"none">>
      [] k = "imp" -> IF e.a[1].res THEN <<"none">>
                      ELSE LET c == Eval(e.a[1], m) IN IF c = TT THEN Cand(e.a[2], m) ELSE IF IsErr(c) THEN c ELSE <<"none">>
      [] k = "and" -> LET c == Cand(e.a[1], m) IN IF c[1] \in {"none", "u"} THEN Cand(e.a[2], m) ELSE c
      [] k = "var" -> IF e.n = "$res" THEN TT ELSE <<"none">>
      [] k = "not" -> IF e.a[1].k = "var" /\ e.a[1].n = "$res" THEN FF ELSE <<"none">>
      [] k = "let" -> IF e.a[1].res THEN <<"none">>
                      ELSE LET v == Eval(e.a[1], m) IN IF IsErr(v) THEN v ELSE Cand(e.a[2], With(m, e.n, v))
      [] OTHER -> <<"none">>

\* a sequence given by its length and its elements, or by its members (in some order)
IsRes(e) == e.k = "var" /\ e.n = "$res"
CandSeq(ps, m) ==
    LET lens == {i \in 1..Len(ps) : ps[i].k = "eq" /\ ps[i].a[1].k = "len" /\ IsRes(ps[i].a[1].a[1]) /\ ~ps[i].a[2].res}
        n == IF lens = {} THEN U ELSE Eval(ps[CHOOSE i \in lens : TRUE].a[2], m)
    IN IF n[1] # "i" \/ n[2] < 0 \/ n[2] > 40 THEN <<"none">>
       ELSE IF n[2] = 0 THEN <<"s", <<>>>>
       ELSE LET m2 == With(m, "$res", <<"s", TLCEval([i \in 1..n[2] |-> U])>>)
                byidx == {i \in 1..Len(ps) : ps[i].k = "all" /\ Len(ps[i].vs) = 1 /\ ps[i].vs[1].t = "Int"
                            /\ ps[i].a[1].k = "imp" /\ ps[i].a[1].a[2].k = "eq"
                            /\ ps[i].a[1].a[2].a[1].k = "idx" /\ IsRes(ps[i].a[1].a[2].a[1].a[1])
                            /\ ps[i].a[1].a[2].a[1].a[2].k = "var" /\ ps[i].a[1].a[2].a[1].a[2].n = ps[i].vs[1].n}
                bymem == {i \in 1..Len(ps) : ps[i].k = "all" /\ Len(ps[i].vs) = 1 /\ ps[i].vs[1].t = "Ref"
                            /\ ps[i].a[1].k = "eq"
                            /\ \E j \in {1, 2} : ps[i].a[1].a[j].k = "sin" /\ IsRes(ps[i].a[1].a[j].a[2]) /\ ~ps[i].a[1].a[3 - j].res}
            IN IF byidx # {} THEN
                 LET q == ps[CHOOSE i \in byidx : TRUE]
                     el(i) == LET m3 == With(m2, q.vs[1].n, I(i - 1))
                              IN IF Eval(q.a[1].a[1], m3) = TT THEN Eval(q.a[1].a[2].a[2], m3) ELSE U
                 IN <<"s", TLCEval([i \in 1..n[2] |-> el(i)])>>
               ELSE IF bymem # {} THEN
                 LET q == ps[CHOOSE i \in bymem : TRUE]
                     e == IF q.a[1].a[1].res THEN q.a[1].a[2] ELSE q.a[1].a[1]
                     ms == SelectSeq(Universe("Ref", m), LAMBDA x : Eval(e, With(m, q.vs[1].n, x)) = TT)
                 IN IF Len(ms) = n[2] THEN <<"s", ms>> ELSE <<"none">>
               ELSE <<"none">>

\* what the postconditions of the function that made a value say about it
Observe(fn, as, m) ==
    IF <<fn, as>> \in DOMAIN m.O THEN m.O[<<fn, as>>]
    ELSE IF as = <<>> \/ as[1][1] # "t" THEN U
    ELSE LET t == as[1] IN
         IF ~HasFun(m, t[2]) THEN U
         ELSE LET f == Fun(m, t[2])
                  m1 == With([m EXCEPT !.v = Env(f, t[3])], "$res", t)
                  RECURSIVE Go(_)
                  Go(i) == IF i > Len(f.posts) THEN U
                           ELSE LET c == ObsIn(f.posts[i], fn, as, m1)
                                IN IF IsU(c) THEN Go(i + 1) ELSE c
              IN Go(1)
IsObs(e, fn, as, m) ==
    /\ e.k \in {"app", "dom"} /\ e.n = fn /\ Len(e.a) = Len(as)
    /\ e.a[1].k = "var" /\ e.a[1].n = "$res"
    /\ \A i \in 2..Len(as) : ~e.a[i].res /\ VEq(Eval(e.a[i], m), as[i]) = TT
ObsIn(e, fn, as, m) ==
    LET k == e.k IN
    CASE k = "eq" -> IF IsObs(e.a[1], fn, as, m) THEN (IF IsObs(e.a[2], fn, as, m) THEN U ELSE Eval(e.a[2], m))
                     ELSE IF IsObs(e.a[2], fn, as, m) THEN Eval(e.a[1], m) ELSE U
      [] k = "and" -> LET c == ObsIn(e.a[1], fn, as, m) IN IF IsU(c) THEN ObsIn(e.a[2], fn, as, m) ELSE c
      [] k = "imp" -> IF e.a[1].res THEN U
                      ELSE LET c == Eval(e.a[1], m) IN IF c = TT THEN ObsIn(e.a[2], fn, as, m) ELSE U
      [] k = "dom" -> IF fn = "typeof" /\ e.n = "issubtype" /\ IsObs(e.a[1], fn, as, m)
                      THEN Eval(e.a[2], m) ELSE U
      [] OTHER -> U

BVW == 64
Dom(fn, as, p, m) ==
    CASE fn = "typeof" -> IF IsU(as[1]) THEN U ELSE TypeOf(as[1], m)
      [] fn \in {"issubtype", "extends_"} -> SubTy(m, as[1], as[2])
      [] fn = "isnotsubtype" -> Not3(SubTy(m, as[1], as[2]))
      [] fn = "object___eq__" -> EqObj(as[1], as[2], m)
      [] fn \in {"Low", "LowEvent"} -> TT
      [] fn \in {"list_arg", "set_arg", "dict_arg", "Iterator_arg", "PSeq_arg", "PSet_arg", "PMultiset_arg", "tuple_arg"} ->
            IF as[2][1] # "i" THEN U ELSE ArgOf(as[1], as[2][2])
      [] GenericOf(m, fn) # {} ->
            IF as[2][1] # "i" THEN U ELSE ArgOf(UpTo(m, as[1], CHOOSE c \in GenericOf(m, fn) : TRUE), as[2][2])
      [] fn = "tuple_args" -> IF as[1][1] = "ty" /\ as[1][2] = "tuple" THEN as[1][3][1] ELSE U
      [] fn = "get_basic" -> IF as[1][1] # "ty" THEN U
                             ELSE IF IsUnion(as[1]) THEN Ty("union_basic")
                             ELSE IF as[1][2] \in {"tuple", "tuple_var"} THEN Ty("tuple_basic")
                             ELSE IF as[1][3] = <<>> THEN as[1] ELSE <<"ty", as[1][2] \o "_basic", <<>>>>
      [] fn = "toBVInt" -> IF as[1][1] # "i" THEN U ELSE <<"bv", as[1][2] % Pow2(m.bv), m.bv>>
      [] fn = "fromBVInt" -> IF as[1][1] = "bv" THEN I(as[1][2]) ELSE U
      [] fn \in {"andBVInt", "orBVInt", "xorBVInt"} ->
            IF as[1][1] = "bv" /\ as[2][1] = "bv"
            THEN <<"bv", BitOp(CASE fn = "andBVInt" -> "and" [] fn = "orBVInt" -> "or" [] OTHER -> "xor",
                               as[1][2], as[2][2], m.bv), m.bv>> ELSE U
      [] fn = "shlBVInt" -> IF as[1][1] = "bv" /\ as[2][1] = "bv"
                            THEN (IF as[2][2] >= m.bv THEN <<"bv", 0, m.bv>>
                                  ELSE <<"bv", (as[1][2] * Pow2(as[2][2])) % Pow2(m.bv), m.bv>>) ELSE U
      [] fn = "shrBVInt" -> IF as[1][1] = "bv" /\ as[2][1] = "bv"
                            THEN (IF as[2][2] >= m.bv THEN <<"bv", 0, m.bv>>
                                  ELSE <<"bv", as[1][2] \div Pow2(as[2][2]), m.bv>>) ELSE U
      [] fn = "__toMS" -> IF as[1][1] = "s" THEN <<"M", BagOf(as[1][2])>> ELSE U
      [] fn = "__sum" -> IF as[1][1] = "s" /\ \A i \in 1..Len(as[1][2]) : as[1][2][i][1] = "i"
                         THEN I(SumSeq([i \in 1..Len(as[1][2]) |-> as[1][2][i][2]])) ELSE U
      [] fn = "Measure$create" -> <<"ms", as>>
      [] fn = "Measure$guard" -> IF as[1][1] = "ms" THEN as[1][2][1] ELSE U
      [] fn = "Measure$key" -> IF as[1][1] = "ms" THEN as[1][2][2] ELSE U
      [] fn = "Measure$value" -> IF as[1][1] = "ms" THEN as[1][2][3] ELSE U
      [] fn \in {"_single", "_combine"} -> <<"nm", fn, as>>
      [] fn \in DOMAIN Prog(m).doms /\ Prog(m).doms[fn].t = "PyType" ->
            IF fn = "tuple" THEN <<"ty", fn, as>> ELSE <<"ty", fn, as>>
      [] OTHER -> IF <<fn, as>> \in DOMAIN m.O THEN m.O[<<fn, as>>] ELSE U

(*---------------------------------- exhale -------------------------------*)
\* Exh(e, m, P): check assertion e in m, taking its permissions out of P
OkP(P) == [s |-> "ok", P |-> P, k |-> "", l |-> 0]
FailP(P, k, l) == [s |-> "fail", P |-> P, k |-> k, l |-> l]
UnkP(P) == [s |-> "unk", P |-> P, k |-> "", l |-> 0]
\* a short description of an undecided assertion
RECURSIVE Desc(_, _)
Desc(e, d) == IF d = 0 THEN "" ELSE e.k \o (IF e.k \in {"app", "dom", "var", "fld", "acc", "pacc"} THEN ":" \o e.n ELSE "")
              \o (IF e.a = <<>> THEN "" ELSE "(" \o Desc(e.a[1], d - 1) \o (IF Len(e.a) > 1 THEN "," \o Desc(e.a[2], d - 1) ELSE "") \o ")")
UnkE(P, e) == [s |-> "unk", P |-> P, k |-> Desc(e, 4), l |-> e.p]

TakePerm(P, key, q, l) ==
    LET have == PermAt(P, key)
    IN IF q[1] = "w" THEN (IF QPos(have) THEN OkP(SetPerm(P, key, QSub(have, IF QLe(Q(1, 32), have) THEN Q(1, 64) ELSE QDiv2(have))))
                           ELSE FailP(P, "perm", l))
       ELSE IF q[1] \notin {"q", "i"} THEN UnkP(P)
       ELSE LET a == AsQ(q) IN
            IF a[2] < 0 THEN FailP(P, "negperm", l)
            ELSE IF QLe(a, have) THEN OkP(SetPerm(P, key, QSub(have, a))) ELSE FailP(P, "perm", l)

Exh(e, mo, P) ==
    LET k == e.k
        m == IF e.pq THEN [mo EXCEPT !.xp = <<P>>] ELSE mo IN
    IF ~e.imp THEN
        LET v == Eval(e, m)
        IN IF v = TT THEN OkP(P)
           ELSE IF v = FF THEN FailP(P, "false", e.p)
           ELSE IF IsErr(v) THEN FailP(P, v[2], v[3])
           ELSE UnkE(P, e)
    ELSE CASE k = "and" ->
                LET x == Exh(e.a[1], m, P)
                IN IF x.s = "fail" THEN x
                   ELSE LET y == Exh(e.a[2], m, x.P) IN IF y.s = "ok" THEN [y EXCEPT !.s = x.s, !.k = x.k, !.l = x.l] ELSE y
           [] k = "imp" -> LET c == Eval(e.a[1], m)
                           IN IF c = TT THEN Exh(e.a[2], m, P) ELSE IF c = FF THEN OkP(P)
                              ELSE IF IsErr(c) THEN FailP(P, c[2], c[3]) ELSE UnkE(P, e)
           [] k = "cond" -> LET c == Eval(e.a[1], m)
                            IN IF c = TT THEN Exh(e.a[2], m, P) ELSE IF c = FF THEN Exh(e.a[3], m, P)
                               ELSE IF IsErr(c) THEN FailP(P, c[2], c[3]) ELSE UnkE(P, e)
           [] k = "acc" -> LET r == Eval(e.a[1], m) q == Eval(e.a[2], m)
                           IN IF IsErr(r) THEN FailP(P, r[2], r[3])
                              ELSE IF IsErr(q) THEN FailP(P, q[2], q[3])
                              ELSE IF IsU(r) THEN UnkE(P, e)
                              ELSE IF r = Null THEN FailP(P, "perm", e.p)
                              ELSE TakePerm(P, <<r, e.n>>, QScale(q, m.sc), e.p)
           [] k = "pacc" -> LET as == EvalAll(SubSeq(e.a, 2, Len(e.a)), 1, <<>>, m)
                                q == Eval(e.a[1], m)
                                bad == Bad(as)
                            IN IF IsErr(bad) THEN FailP(P, bad[2], bad[3])
                               ELSE IF IsErr(q) THEN FailP(P, q[2], q[3])
                               ELSE TakePerm(P, <<"p", e.n, as>>, QScale(q, m.sc), e.p)
           [] k = "let" -> LET v == Eval(e.a[1], m)
                           IN IF IsErr(v) THEN FailP(P, v[2], v[3]) ELSE Exh(e.a[2], With(m, e.n, v), P)
           [] k = "ie" -> Exh(e.a[2], m, P)
           [] k = "all" -> ExhVals(e, 1, m, P, 1, "ok")
           [] OTHER -> UnkE(P, e)
\* quantified permissions: instance after instance
ExhVals(e, i, m, P, j, st) ==
    IF i > Len(e.vs) THEN Exh(e.a[1], m, P)
    ELSE LET uni == Universe(e.vs[i].t, m)
             RECURSIVE Go(_, _, _)
             Go(n, Pn, s) == IF n > Len(uni) THEN [OkP(Pn) EXCEPT !.s = s]
                             ELSE LET x == ExhVals(e, i + 1, With(m, e.vs[i].n, uni[n]), Pn, 1, "ok")
                                  IN IF x.s = "fail" THEN x ELSE Go(n + 1, x.P, IF x.s = "unk" THEN "unk" ELSE s)
         IN Go(j, P, st)
ExhAll(es, i, m, P) ==
    IF i > Len(es) THEN OkP(P)
    ELSE LET x == Exh(es[i], m, P)
         IN IF x.s = "fail" THEN x
            ELSE LET y == ExhAll(es, i + 1, m, x.P)
                 IN IF y.s = "ok" THEN [y EXCEPT !.s = x.s, !.k = x.k, !.l = x.l] ELSE y

(*---------------------------------- inhale -------------------------------*)
\* InhAll(es, env, m, n): assume the assertions es.  Permissions are added;
\* unknown values are solved for where the assertion determines them; FALSE
\* makes the path infeasible.  Work items are <<expression, bindings>>.
RECURSIVE Conjs(_, _)
Conjs(e, env) == IF e.k = "and" THEN Conjs(e.a[1], env) \o Conjs(e.a[2], env) ELSE << <<e, env>> >>

Fresh(m) == LET id == m.N + 1 IN [m EXCEPT !.N = id]

AddPerm(m, key, q) ==
    LET have == PermAt(m.P, key)
        new == IF q[1] = "w" THEN LET w == QAdd(have, IF QLe(Q(1, 32), have) \/ have[2] = 0 THEN Q(1, 128) ELSE QDiv2(have))
                                   IN IF QLe(Q(1, 1), w) THEN have ELSE w
               ELSE IF q[1] \in {"q", "i"} THEN QAdd(have, AsQ(q)) ELSE have
    IN [m EXCEPT !.P = SetPerm(m.P, key, new)]

\* a type known except for some of its arguments, and a type that fills them in
Partial(t) == t[1] = "ty" /\ \E i \in 1..Len(t[3]) : IsU(t[3][i])
Refines(t, r) == r[1] = "ty" /\ r[2] = t[2] /\ Len(r[3]) = Len(t[3])
                 /\ \A i \in 1..Len(t[3]) : IsU(t[3][i]) \/ t[3][i] = r[3][i]

\* SetVal: make expression e denote val, if e is an unknown place
RECURSIVE SetVal(_, _, _)
SetVal(e, val, m) ==
    LET k == e.k  no == [m |-> m, ok |-> FALSE] IN
    CASE k = "var" -> IF e.n \notin DOMAIN m.v \/ IsU(m.v[e.n]) THEN [m |-> With(m, e.n, val), ok |-> TRUE] ELSE no
      [] k = "fld" -> LET r == Eval(e.a[1], m)
                      IN IF IsU(r) \/ IsErr(r) \/ r = Null THEN no
                         ELSE [m |-> [m EXCEPT !.H = SetBind(@, <<r, e.n>>, val)], ok |-> TRUE]
      [] k = "idx" -> LET s == Eval(e.a[1], m) i == Eval(e.a[2], m)
                      IN IF s[1] = "s" /\ i[1] = "i" /\ i[2] >= 0 /\ i[2] < Len(s[2]) /\ e.a[1].k = "fld"
                         THEN SetVal(e.a[1], <<"s", [s[2] EXCEPT ![i[2] + 1] = val]>>, m) ELSE no
      [] k = "len" -> IF val[1] = "i" /\ val[2] >= 0 /\ val[2] < 40 /\ IsU(Eval(e.a[1], m))
                      THEN SetVal(e.a[1], <<"s", TLCEval([i \in 1..val[2] |-> U])>>, m) ELSE no
      [] k = "dom" /\ e.n = "typeof" ->
            LET x == Eval(e.a[1], m)
            IN IF x[1] = "o" /\ (IsU(TypeOf(x, m)) \/ (Partial(TypeOf(x, m)) /\ Refines(TypeOf(x, m), val))) THEN [m |-> [m EXCEPT !.T = SetBind(@, x[2], val)], ok |-> TRUE] ELSE no
      [] k = "app" ->
            IF e.n = "int___unbox__" THEN SetVal(e.a[1], <<"bi", val[2]>>, m)
            ELSE IF e.n = "bool___unbox__" THEN SetVal(e.a[1], <<"bb", val[2]>>, m)
            ELSE LET as == EvalAll(e.a, 1, <<>>, m)
                 IN IF Bad(as)[1] # "ok" \/ ~HasFun(m, e.n) THEN no
                    ELSE LET f == Fun(m, e.n) IN
                         IF f.hasbody THEN
                            LET x == SetVal(f.body, val, [m EXCEPT !.v = Env(f, as)])
                            IN IF x.ok THEN [m |-> [x.m EXCEPT !.v = m.v], ok |-> TRUE] ELSE no
                         ELSE [m |-> [m EXCEPT !.O = SetBind(@, <<e.n, as>>, val)], ok |-> TRUE]
      [] OTHER -> no

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Abstract(fn, m) == HasFun(m, fn) /\ ~Fun(m, fn).hasbody
\* Solve: make boolean e come out as b
RECURSIVE Solve(_, _, _)
Solve(e, b, m) ==
    LET k == e.k  no == [m |-> m, ok |-> FALSE] IN
    CASE k = "not" -> Solve(e.a[1], ~b, m)
      [] k \in {"eq", "ne"} ->
            LET same == (k = "eq") = b
                l == Eval(e.a[1], m) r == Eval(e.a[2], m)
            IN IF IsErr(l) \/ IsErr(r) THEN no
               ELSE IF same THEN
                  (IF IsU(l) /\ ~IsU(r) THEN
                       (LET x == SetVal(e.a[1], r, m) IN
                        IF x.ok THEN x ELSE IF r[1] = "b" THEN Solve(e.a[1], r[2], m) ELSE no)
                   \* an abstract function's result, so far only a term, is some object
                   ELSE IF l[1] = "t" /\ r[1] = "o" /\ e.a[1].k = "app" /\ Abstract(e.a[1].n, m) THEN SetVal(e.a[1], r, m)
                   ELSE IF IsU(r) /\ ~IsU(l) THEN
                       (LET x == SetVal(e.a[2], l, m) IN
                        IF x.ok THEN x ELSE IF l[1] = "b" THEN Solve(e.a[2], l[2], m) ELSE no)
                   ELSE no)
               ELSE \* different from null: some object
                  IF IsU(l) /\ r = Null THEN LET f == Fresh(m) IN SetVal(e.a[1], <<"o", f.N>>, f)
                  ELSE IF l[1] = "b" /\ IsU(r) THEN Solve(e.a[2], ~l[2], m)
                  ELSE IF r[1] = "b" /\ IsU(l) THEN Solve(e.a[1], ~r[2], m)
                  ELSE no
      \* a bound on an unknown amount: the bound itself, or one step beyond a strict one
      [] k \in {"ple", "pge"} /\ b ->
            LET l == Eval(e.a[1], m) r == Eval(e.a[2], m)
            IN IF IsU(l) /\ r[1] = "q" THEN SetVal(e.a[1], r, m)
               ELSE IF IsU(r) /\ l[1] = "q"
               THEN LET x == SetVal(e.a[2], l, m)
                    IN IF x.ok /\ k = "ple" /\ e.a[2].k = "var" THEN [x EXCEPT !.m.soft = @ \cup {e.a[2].n}] ELSE x
               ELSE no
      [] k = "plt" /\ b ->
            LET l == Eval(e.a[1], m) r == Eval(e.a[2], m)
            IN IF IsU(l) /\ r[1] = "q" THEN SetVal(e.a[1], QSub(r, Q1), m)
               ELSE IF IsU(r) /\ l[1] = "q" THEN SetVal(e.a[2], QAdd(l, Q1), m) ELSE no
      [] k = "dom" /\ e.n = "issubtype" /\ b ->
            IF e.a[1].k = "dom" /\ e.a[1].n = "typeof" THEN
               LET t == Eval(e.a[2], m)
               IN IF IsU(t) \/ IsErr(t) \/ IsUnion(t) THEN no ELSE SetVal(e.a[1], t, m)
            ELSE no
      [] k = "app" -> IF ~HasFun(m, e.n) THEN no
                      ELSE LET f == Fun(m, e.n)
                               as == EvalAll(e.a, 1, <<>>, m) IN
                      IF f.hasbody THEN
                           IF Bad(as)[1] # "ok" THEN no
                           ELSE LET x == Solve(f.body, b, [m EXCEPT !.v = Env(f, as)])
                                IN [m |-> [x.m EXCEPT !.v = m.v], ok |-> x.ok]
                      ELSE IF Len(as) = 2 /\ b /\ e.n \in {"int___eq__", "bool___eq__", "str___eq__", "object___eq__"}
                           THEN (IF IsU(as[1]) /\ ~IsU(as[2]) THEN SetVal(e.a[1], as[2], m)
                                 ELSE IF IsU(as[2]) /\ ~IsU(as[1]) THEN SetVal(e.a[2], as[1], m) ELSE no)
                      ELSE IF Bad(as)[1] # "ok" THEN no
                      ELSE [m |-> [m EXCEPT !.O = SetBind(@, <<e.n, as>>, B(b))], ok |-> TRUE]
      [] OTHER -> no

WithEnv(m, env) == [m EXCEPT !.v = env @@ @]
Unbind(m, m0, env) == [m EXCEPT !.v = [x \in DOMAIN m0.v |-> IF x \in DOMAIN env /\ x \notin DOMAIN m.v THEN m0.v[x] ELSE
                                          IF x \in DOMAIN env THEN m0.v[x] ELSE m.v[x]]]

\* one work item: [m, more: further items, keep: item could not be decided yet]
InhOne(w, m) ==
    LET e == w[1] env == w[2]
        mm == IF env = <<>> THEN m ELSE WithEnv(m, env)
        k == e.k
        back(x) == IF env = <<>> THEN x ELSE Unbind(x, m, env)
        res(x) == [m |-> x, more |-> <<>>, keep |-> FALSE]
        keep == [m |-> m, more |-> <<>>, keep |-> TRUE]
        bad(kind, l) == res([m EXCEPT !.st = "fail", !.fk = kind, !.fl = l, !.fl2 = l])
    IN CASE k = "app" /\ e.n \in CLOSED ->
              LET as == EvalAll(e.a, 1, <<>>, mm) IN res([m EXCEPT !.O = SetBind(@, <<e.n, as>>, TT)])
         [] k = "imp" ->
              LET c == Eval(e.a[1], mm)
              IN IF c = TT THEN [m |-> m, more |-> Conjs(e.a[2], env), keep |-> FALSE]
                 ELSE IF c = FF THEN res(m) ELSE IF IsErr(c) THEN bad(c[2], c[3]) ELSE keep
         [] k = "cond" /\ e.imp ->
              LET c == Eval(e.a[1], mm)
              IN IF c = TT THEN [m |-> m, more |-> Conjs(e.a[2], env), keep |-> FALSE]
                 ELSE IF c = FF THEN [m |-> m, more |-> Conjs(e.a[3], env), keep |-> FALSE]
                 ELSE IF IsErr(c) THEN bad(c[2], c[3]) ELSE keep
         [] k = "let" -> LET v == Eval(e.a[1], mm)
                         IN IF IsErr(v) THEN bad(v[2], v[3]) ELSE IF IsU(v) THEN keep
                            ELSE [m |-> m, more |-> Conjs(e.a[2], IF env = <<>> THEN e.n :> v ELSE (e.n :> v) @@ env), keep |-> FALSE]
         [] k = "ie" -> [m |-> m, more |-> Conjs(e.a[1], env), keep |-> FALSE]
         [] k = "acc" ->
              LET r == Eval(e.a[1], mm) q == Eval(e.a[2], mm)
              IN IF IsErr(r) THEN bad(r[2], r[3])
                 ELSE IF IsErr(q) THEN bad(q[2], q[3])
                 ELSE IF IsU(r) THEN
                    \* permission to a field of an unknown receiver: it is some new object
                    (LET f == Fresh(mm) x == SetVal(e.a[1], <<"o", f.N>>, f)
                     IN IF x.ok THEN res(AddPerm(back(x.m), << <<"o", f.N>>, e.n >>, QScale(q, m.sc))) ELSE keep)
                 ELSE IF r = Null THEN res([m EXCEPT !.st = "infeasible"])
                 ELSE res(AddPerm(m, <<r, e.n>>, QScale(q, m.sc)))
         [] k = "pacc" ->
              LET as == EvalAll(SubSeq(e.a, 2, Len(e.a)), 1, <<>>, mm)
                  q == Eval(e.a[1], mm) b == Bad(as)
              IN IF IsErr(b) THEN bad(b[2], b[3]) ELSE IF IsU(b) THEN keep
                 ELSE res(AddPerm(m, <<"p", e.n, as>>, QScale(q, m.sc)))
         [] k = "all" /\ (e.imp \/ Len(e.vs) = 1) ->
              LET uni == Universe(e.vs[1].t, m)
                  v == IF e.imp THEN U ELSE Eval(e, mm)
                  body == IF Len(e.vs) = 1 THEN e.a[1] ELSE [e EXCEPT !.vs = Tail(@)]
                  RECURSIVE Go(_)
                  Go(i) == IF i > Len(uni) THEN <<>>
                           ELSE Conjs(body, IF env = <<>> THEN e.vs[1].n :> uni[i] ELSE (e.vs[1].n :> uni[i]) @@ env) \o Go(i + 1)
              IN IF v = TT THEN res(m) ELSE IF v = FF THEN res([m EXCEPT !.st = "infeasible"])
                 ELSE IF IsErr(v) THEN keep
                 ELSE [m |-> m, more |-> Go(1), keep |-> FALSE]
         [] k = "ex" ->
              LET v == Eval(e, mm)
                  uni == Universe(e.vs[1].t, m)
                  cs == Conjs(e.a[1], <<>>)
                  ok(i) == \A j \in 1..Len(cs) : LET x == Eval(cs[j][1], With(mm, e.vs[1].n, uni[i])) IN x # FF /\ ~IsErr(x)
                  is == {i \in 1..Len(uni) : ok(i)}
              IN IF v = TT THEN res(m) ELSE IF v = FF THEN res([m EXCEPT !.st = "infeasible"])
                 ELSE IF Len(e.vs) > 1 \/ is = {} THEN keep
                 ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j
                      IN [m |-> m, keep |-> FALSE,
                          more |-> Conjs(e.a[1], IF env = <<>> THEN e.vs[1].n :> uni[i] ELSE (e.vs[1].n :> uni[i]) @@ env)]
         [] k = "forperm" /\ Len(e.a) = 2 /\ Len(e.vs) = 1 /\ e.a[2].k = "var" ->
              LET locs == {l \in DOMAIN HeldIn(mm) : QPos(HeldIn(mm)[l]) /\ Len(l) \in 2..3 /\ l[2] = e.n}
                  vals == SetSeq({IF Len(l) = 2 THEN l[1] ELSE l[3][1] : l \in locs})
                  RECURSIVE Go(_)
                  Go(i) == IF i > Len(vals) THEN <<>>
                           ELSE Conjs(e.a[1], IF env = <<>> THEN e.vs[1].n :> vals[i] ELSE (e.vs[1].n :> vals[i]) @@ env) \o Go(i + 1)
              IN [m |-> m, more |-> Go(1), keep |-> FALSE]
         [] OTHER ->
              LET v == Eval(e, mm)
              IN IF v = TT THEN res(m)
                 \* a second lower bound of an amount chosen in this inhale
                 ELSE IF v = FF /\ k = "ple" /\ e.a[2].k = "var" /\ e.a[2].n \in m.soft
                 THEN LET l == Eval(e.a[1], mm) IN res(With(m, e.a[2].n, l))
                 ELSE IF v = FF THEN res([m EXCEPT !.st = "infeasible"])
                 ELSE IF IsErr(v) THEN bad(v[2], v[3])
                 ELSE LET s == Solve(e, TRUE, mm) IN IF s.ok THEN res(back(s.m)) ELSE keep

InhAll(es, env, m, n) ==
    LET RECURSIVE Pass(_, _, _, _)
        \* Pass(work, kept, mm, progress)
        Pass(w, kept, mm, prog) ==
            IF mm.st # "run" THEN mm
            ELSE IF w = <<>> THEN
                (IF kept # <<>> /\ prog THEN Pass(kept, <<>>, mm, FALSE)
                 ELSE [mm EXCEPT !.left = @ + Len(kept), !.why = @ \o [i \in 1..Len(kept) |-> <<"assume", Desc(kept[i][1], 4), kept[i][1].p>>]])
            ELSE LET r == InhOne(Head(w), mm)
                 IN IF r.keep THEN Pass(Tail(w), Append(kept, Head(w)), mm, prog)
                    ELSE Pass(r.more \o Tail(w), kept, r.m, TRUE)
        RECURSIVE Start(_)
        Start(i) == IF i > Len(es) THEN <<>> ELSE Conjs(es[i], <<>>) \o Start(i + 1)
    IN [Pass(Start(1), <<>>, [m EXCEPT !.soft = {}], FALSE) EXCEPT !.soft = {}]

(*--------------------------------- machine -------------------------------*)
Fail(m, k, l, l2) == [m EXCEPT !.st = "fail", !.fk = k, !.fl = l, !.fl2 = l2]
FailE(m, v, l) == Fail(m, v[2], IF v[3] = 0 THEN l ELSE v[3], IF v[3] = 0 THEN l ELSE v[3])
Unk(m, why) == [m EXCEPT !.st = "unk", !.fk = why]
Empty == [x \in {} |-> U]

SumP(P, R) == [x \in DOMAIN P \cup DOMAIN R |-> QAdd(PermAt(P, x), PermAt(R, x))]

\* run exhale of es; kind k is the error a failing check reports
DoExh(m, es, k, p) ==
    LET x == ExhAll(es, 1, m, m.P)
    IN IF x.s = "fail" THEN Fail(m, IF x.k = "false" THEN k ELSE k \o ":" \o x.k, IF p = 0 THEN x.l ELSE p, x.l)
       ELSE IF x.s = "unk" /\ \A e \in Range(es) : ~e.imp THEN [m EXCEPT !.unk = @ + 1, !.why = Append(@, <<"check", x.k, x.l>>)]
       ELSE [m EXCEPT !.P = x.P, !.unk = @ + (IF x.s = "unk" THEN 1 ELSE 0),
                      !.why = IF x.s = "unk" THEN Append(@, <<"check", x.k, x.l>>) ELSE @]

InitMachine(c) ==
    LET ca == Cases[c]
        me == Progs[ca.prog].meths[ca.meth]
        argv(i) == LET a == ca.args[i] IN
                   IF a[1] = "obj" THEN <<"o", i>> ELSE a
        v == [x \in Range(me.args) \cup Range(me.rets) \cup Range(me.locals) |->
                IF x \in Range(me.args) THEN argv(CHOOSE i \in 1..Len(me.args) : me.args[i] = x) ELSE U]
        m0 == [case |-> c, prog |-> ca.prog, st |-> "run", fk |-> "", fl |-> 0, fl2 |-> 0, n |-> 0,
               meth |-> ca.meth, pc |-> 1, v |-> v, P |-> Empty, H |-> Empty, oP |-> Empty, oH |-> Empty,
               T |-> [i \in 1..Len(ca.args) |-> IF ca.args[i][1] = "obj" THEN ca.args[i][2] ELSE Ty("object")],
               N |-> Len(ca.args), O |-> Empty, labs |-> Empty, loops |-> <<>>, stack |-> <<>>,
               left |-> 0, unk |-> 0, why |-> <<>>, rv |-> <<>>, xp |-> <<>>, sc |-> Q1, soft |-> {}, terms |-> ca.terms, chk |-> ca.chk, bv |-> ca.bv, tr |-> <<>>]
        m1 == InhAll(me.pres, <<>>, m0, 0)
    IN [m1 EXCEPT !.oH = m1.H, !.oP = m1.P]

\* an arbitrary value for the variables xs
Havoc(v, xs) == [k \in DOMAIN v \ Range(xs) |-> v[k]]
\* leave n loops: each returns the permissions that were framed around it
RECURSIVE PopLoops(_, _)
PopLoops(m, n) == IF n <= 0 THEN m
                  ELSE PopLoops([m EXCEPT !.P = SumP(@, Head(m.loops)), !.loops = Tail(@)], n - 1)

\* where a call enters a method: a receiver of a subclass runs what was verified for that class
Entry(m, me, static) ==
    IF static \/ DOMAIN me.disp = {"$none"} THEN 1
    ELSE LET t == Eval(me.dexp, m)
         IN IF t[1] = "ty" /\ t[2] \in DOMAIN me.disp THEN me.disp[t[2]] ELSE 1
\* the assumption of the exact class of the receiver, in a body run for an object of a subclass (super().m(), __init__)
Inherited(m, i) ==
    /\ i.exact /\ m.stack # <<>>
    /\ LET a == Eval(i.es[1].a[1], m) b == Eval(i.es[1].a[2], m) IN a # b /\ SubTy(m, a, b) = TT

\* an assertion with an arbitrary choice when assumed ([b(n, x) ? A : B, ..]) hands over what was given up when checked
RECURSIVE Choices(_, _)
Choices(e, m) ==
    CASE e.k \in {"and", "imp", "cond"} -> UNION {Choices(e.a[j], m) : j \in 1..Len(e.a)}
      [] e.k = "ie" /\ e.a[1].k = "cond" /\ e.a[2].k = "cond" /\ e.a[1].a[1].k = "app" ->
           LET as == EvalAll(e.a[1].a[1].a, 1, <<>>, m) v == Eval(e.a[2].a[1], m)
           IN IF (as # <<>> /\ IsErr(as[Len(as)])) \/ v \notin {TT, FF} THEN {} ELSE {<< <<e.a[1].a[1].n, as>>, v >>}
      [] OTHER -> {}
Chosen(es, m, O) ==
    LET cs == UNION {Choices(es[j], m) : j \in 1..Len(es)}
        ks == {c[1] : c \in cs}
    IN IF cs = {} THEN O
       ELSE [k \in DOMAIN O \cup ks |-> IF k \in ks THEN (CHOOSE c \in cs : c[1] = k)[2] ELSE O[k]]

StartCall(m, i) ==
    LET me == Meth(m, i.m)
        as == EvalAll(i.a, 1, <<>>, m)
    IN IF as # <<>> /\ IsErr(as[Len(as)]) THEN FailE(m, as[Len(as)], i.p)
       ELSE
       LET env == [x \in Range(me.args) \cup Range(me.rets) \cup Range(me.locals) |->
                     IF x \in Range(me.args) THEN as[CHOOSE j \in 1..Len(as) : me.args[j] = x] ELSE U]
           mc == [m EXCEPT !.v = env]
           x == DoExh(mc, me.pres, "pre", i.p)
       IN IF x.st # "run" THEN [x EXCEPT !.v = m.v]
          ELSE IF me.hasbody THEN
              LET fr == [meth |-> m.meth, pc |-> m.pc, v |-> m.v, P |-> x.P, oH |-> m.oH, oP |-> m.oP,
                         O |-> m.O, labs |-> m.labs, loops |-> m.loops, ts |-> i.ts, args |-> as]
                  c0 == [m EXCEPT !.v = env, !.P = Empty, !.meth = i.m, !.pc = Entry(mc, me, i.st), !.labs = Empty,
                                  !.loops = <<>>, !.stack = <<fr>> \o @, !.unk = x.unk, !.why = x.why, !.O = Chosen(me.pres, mc, @)]
                  c1 == InhAll(me.pres, <<>>, c0, 0)
              IN IF c1.st # "run" THEN Fail(m, "pre", i.p, i.p)
                 ELSE [c1 EXCEPT !.oH = c1.H, !.oP = c1.P]
          ELSE
              \* known only by contract: what the caller gave away entirely may change
              LET gone == {k \in DOMAIN m.H : Len(k) = 2 /\ QPos(PermAt(m.P, k)) /\ ~QPos(PermAt(x.P, k))}
                  H2 == [k \in DOMAIN m.H |-> IF k \in gone THEN U ELSE m.H[k]]
                  c0 == [m EXCEPT !.v = env, !.P = Empty, !.H = H2, !.oH = m.H, !.oP = m.P, !.unk = x.unk, !.why = x.why]
                  c1 == InhAll(me.posts, <<>>, c0, 0)
              IN IF c1.st # "run" THEN [m EXCEPT !.st = c1.st, !.fk = c1.fk \o "/post of " \o i.m, !.fl = i.p, !.fl2 = i.p]
                 ELSE [c1 EXCEPT !.P = SumP(x.P, c1.P), !.oH = m.oH, !.oP = m.oP, !.pc = m.pc + 1,
                         !.v = [y \in DOMAIN m.v |->
                                  IF y \in Range(i.ts) THEN c1.v[me.rets[CHOOSE j \in 1..Len(i.ts) : i.ts[j] = y]] ELSE m.v[y]]]

EndMethod(m) ==
    LET me == Meth(m, m.meth)
        x == DoExh(m, me.posts, "post", me.p)
    IN IF x.st # "run" THEN x
       ELSE IF m.stack = <<>> THEN [x EXCEPT !.st = "done", !.rv = TLCEval([i \in 1..Len(me.rets) |-> m.v[me.rets[i]]])]
       ELSE LET fr == Head(m.stack)
                c1 == InhAll(me.posts, <<>>, [m EXCEPT !.P = Empty, !.O = Chosen(me.posts, m, fr.O), !.unk = x.unk, !.why = x.why,
                         !.v = [y \in DOMAIN m.v |-> IF \E j \in 1..Len(me.args) : me.args[j] = y
                                                     THEN fr.args[CHOOSE j \in 1..Len(me.args) : me.args[j] = y] ELSE m.v[y]]], 0)
            IN IF c1.st # "run" THEN [m EXCEPT !.st = "unk", !.fk = "post-inhale"]
               ELSE [c1 EXCEPT !.meth = fr.meth, !.pc = fr.pc + 1, !.P = SumP(fr.P, c1.P), !.oH = fr.oH, !.oP = fr.oP,
                       !.labs = fr.labs, !.loops = fr.loops, !.stack = Tail(@),
                       !.v = [y \in DOMAIN fr.v |->
                                IF y \in Range(fr.ts) THEN m.v[me.rets[CHOOSE j \in 1..Len(fr.ts) : fr.ts[j] = y]] ELSE fr.v[y]]]

Step(m0) ==
    LET code == Meth(m0, m0.meth).code
        m == [m0 EXCEPT !.n = @ + 1]
        next(x) == [x EXCEPT !.pc = @ + 1]
    IN IF m.n > MaxSteps THEN [m EXCEPT !.st = "steps"]
       ELSE IF m.pc > Len(code) THEN EndMethod(m)
       ELSE
       LET i == code[m.pc]
           o == i.o IN
       CASE o = "asg" -> LET v == Eval(i.e, m)
                         IN IF IsErr(v) THEN FailE(m, v, i.p)
                            ELSE next([m EXCEPT !.v = SetBind(@, i.x, v),
                                         !.terms = IF v[1] = "t" /\ v \notin Range(@) THEN Append(@, v) ELSE @])
         [] o = "lab" -> next([m EXCEPT !.labs = SetBind(@, i.n, [H |-> m.H, P |-> m.P])])
         [] o = "goto" -> IF i.ld > Len(m.loops) THEN Unk(m, "jump into loop")
                          ELSE [PopLoops(m, IF i.ld < 0 THEN 0 ELSE Len(m.loops) - i.ld) EXCEPT !.pc = i.t]
         [] o = "cj" -> LET v == Eval(i.e, m)
                        IN IF v = TT THEN next(m) ELSE IF v = FF THEN [m EXCEPT !.pc = i.t]
                           ELSE IF IsErr(v) THEN FailE(m, v, i.p) ELSE Unk(m, "branch")
         [] o = "fas" -> LET r == Eval(i.r, m) v == Eval(i.e, m)
                         IN IF IsErr(r) THEN FailE(m, r, i.p) ELSE IF IsErr(v) THEN FailE(m, v, i.p)
                            ELSE IF IsU(r) THEN Unk(m, "receiver")
                            ELSE IF r = Null \/ PermAt(m.P, <<r, i.f>>) # Q1 THEN
                                (IF r # Null /\ QLe(Q1, PermAt(m.P, <<r, i.f>>)) THEN [m EXCEPT !.st = "infeasible"]
                                 ELSE Fail(m, "perm", i.p, i.p))
                            ELSE next([m EXCEPT !.H = SetBind(@, <<r, i.f>>, v),
                                         !.terms = IF v[1] = "t" /\ v \notin Range(@) THEN Append(@, v) ELSE @])
         [] o = "new" -> LET f == Fresh(m) x == <<"o", f.N>>
                             P2 == [k \in DOMAIN m.P \cup {<<x, i.fs[j]>> : j \in 1..Len(i.fs)} |->
                                      IF k \in DOMAIN m.P THEN m.P[k] ELSE Q1]
                         IN next([f EXCEPT !.v = SetBind(@, i.x, x), !.P = P2])
         [] o = "inh" /\ Inherited(m, i) -> next(m)
         [] o = "inh" -> LET x == InhAll(i.es, <<>>, m, 0) IN IF x.st = "run" THEN next(x)
                            ELSE IF x.st = "fail" THEN [x EXCEPT !.fl = IF x.fl = 0 THEN i.p ELSE @] ELSE x
         [] o = "exh" -> LET x == DoExh(m, i.es, "exhale", i.p) IN IF x.st = "run" THEN next(x) ELSE x
         [] o = "ast" -> LET x == DoExh(m, i.es, "assert", i.p) IN IF x.st = "run" THEN next([x EXCEPT !.P = m.P]) ELSE x
         [] o = "fold" ->
              LET pa == i.e
                  as == EvalAll(SubSeq(pa.a, 2, Len(pa.a)), 1, <<>>, m) b == Bad(as)
              IN IF IsErr(b) THEN FailE(m, b, i.p) ELSE IF IsU(b) THEN Unk(m, "fold")
                 ELSE LET pd == Prog(m).preds[pa.n]
                          q == Eval(pa.a[1], m)
                          x == ExhAll(pd.body, 1, [m EXCEPT !.v = Env(pd, as), !.sc = IF q[1] \in {"q", "i"} THEN AsQ(q) ELSE Q1], m.P)
                      IN IF x.s = "fail" THEN Fail(m, IF x.k = "false" THEN "fold" ELSE "fold:" \o x.k, i.p, x.l)
                         ELSE IF x.s = "unk" THEN Unk(m, "fold")
                         ELSE next(AddPerm([m EXCEPT !.P = x.P], <<"p", pa.n, as>>, q))
         [] o = "unf" ->
              LET pa == i.e
                  as == EvalAll(SubSeq(pa.a, 2, Len(pa.a)), 1, <<>>, m) b == Bad(as)
              IN IF IsErr(b) THEN FailE(m, b, i.p) ELSE IF IsU(b) THEN Unk(m, "unfold")
                 ELSE LET pd == Prog(m).preds[pa.n]
                          q == Eval(pa.a[1], m)
                          x == TakePerm(m.P, <<"p", pa.n, as>>, q, i.p)
                      IN IF x.s = "fail" THEN Fail(m, "unfold:perm", i.p, x.l)
                         ELSE IF x.s = "unk" THEN Unk(m, "unfold")
                         ELSE LET y == InhAll(pd.body, <<>>, [m EXCEPT !.P = x.P, !.v = Env(pd, as), !.sc = IF q[1] \in {"q", "i"} THEN AsQ(q) ELSE Q1], 0)
                              IN IF y.st # "run" THEN Unk(m, "unfold") ELSE next([y EXCEPT !.v = m.v, !.sc = Q1])
         [] o = "call" -> StartCall(m, i)
         [] o = "le" -> LET x == DoExh(m, i.es, "inv-entry", i.p)
                            y == InhAll(i.es, <<>>, [m EXCEPT !.P = Empty, !.unk = x.unk, !.why = x.why], 0)
                        IN IF x.st # "run" THEN x
                           ELSE IF y.st # "run" THEN Unk(m, "inv-inhale")
                           ELSE next([y EXCEPT !.loops = <<x.P>> \o @, !.v = Havoc(@, i.hav)])
         [] o = "lb" -> LET x == DoExh(m, i.es, "inv-preserve", i.p)
                            y == InhAll(i.es, <<>>, [m EXCEPT !.P = Empty, !.unk = x.unk, !.why = x.why], 0)
                        IN IF x.st # "run" THEN x
                           ELSE IF y.st # "run" THEN Unk(m, "inv-inhale")
                           ELSE [y EXCEPT !.pc = i.t, !.v = Havoc(@, i.hav)]
         [] o = "lx" -> next(PopLoops(m, 1))
         [] OTHER -> Unk(m, "instr")

(*--------------------------- observing the outcome -----------------------*)
RECURSIVE Show(_, _)
Show(m, x) ==
    CASE x[1] = "bi" -> <<"int", x[2]>>
      [] x[1] = "bb" -> <<"bool", x[2]>>
      [] x[1] = "null" -> <<"none">>
      [] x[1] = "i" -> <<"int", x[2]>>
      [] x[1] = "b" -> <<"bool", x[2]>>
      [] x[1] = "o" ->
           LET t == TypeOf(x, m)
               f == IF IsU(t) THEN "" ELSE t[2]
               c == IF f = "list" THEN HeapAt(m, <<x, "list_acc">>) ELSE IF f = "set" THEN HeapAt(m, <<x, "set_acc">>)
                    ELSE IF f = "dict" THEN HeapAt(m, <<x, "dict_acc">>) ELSE U
           IN IF c[1] = "s" THEN <<"list", TLCEval([i \in 1..Len(c[2]) |-> Show(m, c[2][i])])>>
              ELSE IF c[1] = "S" THEN <<"set", {Show(m, y) : y \in c[2]}>>
              ELSE IF c[1] = "m" THEN <<"dict", {<<Show(m, y), Show(m, c[2][y])>> : y \in DOMAIN c[2]}>>
              ELSE IF IsU(t) THEN <<"unknown">> ELSE <<"obj", f>>
      [] x[1] = "t" ->
           LET t == TypeOf(x, m) IN
           IF t = Ty("str") THEN LET s == Observe("str___val__", <<x>>, m)
                                 IN IF s[1] = "s" /\ \A i \in 1..Len(s[2]) : s[2][i][1] = "i"
                                    THEN <<"str", TLCEval([i \in 1..Len(s[2]) |-> s[2][i][2]])>> ELSE <<"unknown">>
           ELSE IF t[1] = "ty" /\ t[2] = "tuple" THEN
                LET s == Observe("tuple___val__", <<x>>, m)
                IN IF s[1] = "s" THEN <<"tuple", TLCEval([i \in 1..Len(s[2]) |-> Show(m, s[2][i])])>> ELSE <<"unknown">>
           ELSE IF x[2] = "PSeq___create__" /\ x[3][1][1] = "s" THEN
                <<"pseq", TLCEval([i \in 1..Len(x[3][1][2]) |-> Show(m, x[3][1][2][i])])>>
           ELSE <<"unknown">>
      [] OTHER -> <<"unknown">>

Outcome(m) ==
    IF m.st = "done" THEN <<"ret", IF m.rv = <<>> THEN <<"none">> ELSE Show(m, m.rv[1])>>
    ELSE IF m.st = "fail" THEN <<"fail", m.fk, m.fl, m.fl2>>
    ELSE <<m.st, m.fk>>
=============================================================================
