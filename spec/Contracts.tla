----------------------------- MODULE Contracts ------------------------------
(***************************************************************************)
(* The contracts of the built-in operations against CPython.               *)
(*                                                                         *)
(* Each case is one application of a built-in operation, recorded from     *)
(* CPython: the arguments, the heap before and after, and the result or    *)
(* the fact that it raised.  Values are those of Silver.tla; what a value  *)
(* is known by (the characters of a string, the bounds of a range, ...)    *)
(* is given as facts.  The contract of the operation is evaluated on the   *)
(* case: where its precondition holds the operation must not have raised   *)
(* and every postcondition, and the body if there is one, must hold of     *)
(* what CPython computed.                                                  *)
(*   Verdict  "ok", "notpre" (the contract promises nothing),              *)
(*            "Raises", "WrongResult", "IllDefined", "unknown"             *)
(***************************************************************************)
EXTENDS Silver
VARIABLE st

\* JSON lists stand for the sets, bags and maps of the specification
RECURSIVE Dec(_)
Dec(v) ==
    CASE v[1] = "s" -> <<"s", TLCEval([i \in 1..Len(v[2]) |-> Dec(v[2][i])])>>
      [] v[1] = "S" -> <<"S", {Dec(v[2][i]) : i \in 1..Len(v[2])}>>
      [] v[1] = "M" -> <<"M", BagOf([i \in 1..Len(v[2]) |-> Dec(v[2][i])])>>
      [] v[1] = "m" -> <<"m", [k \in {Dec(v[2][i][1]) : i \in 1..Len(v[2])} |->
                                 Dec(v[2][CHOOSE i \in 1..Len(v[2]) : Dec(v[2][i][1]) = k][2])]>>
      [] v[1] \in {"t", "ty"} -> <<v[1], v[2], TLCEval([i \in 1..Len(v[3]) |-> Dec(v[3][i])])>>
      [] OTHER -> v
DecAll(s) == TLCEval([i \in 1..Len(s) |-> Dec(s[i])])

HeapOf(h) == [k \in {<<<<"o", h[i][1]>>, h[i][2]>> : i \in 1..Len(h)} |->
                Dec(h[CHOOSE i \in 1..Len(h) : <<<<"o", h[i][1]>>, h[i][2]>> = k][3])]
FactsOf(o) == [k \in {<<o[i][1], DecAll(o[i][2])>> : i \in 1..Len(o)} |->
                 Dec(o[CHOOSE i \in 1..Len(o) : <<o[i][1], DecAll(o[i][2])>> = k][3])]
FullOn(H) == [k \in DOMAIN H |-> Q1]

\* the state in which the contract of case c is read: before, or after with the results bound
Before(c) ==
    LET ca == Cases[c]
        f == IF ca.kind = "fun" THEN Progs[ca.prog].funcs[ca.name] ELSE Progs[ca.prog].meths[ca.name]
        H == HeapOf(ca.h0)
    IN [case |-> c, prog |-> ca.prog, st |-> "run", fk |-> "", fl |-> 0, fl2 |-> 0, n |-> 0,
        meth |-> ca.name, pc |-> 1, v |-> Env(f, DecAll(ca.args)), P |-> FullOn(H), H |-> H, oP |-> FullOn(H), oH |-> H,
        T |-> DecAll(ca.types), N |-> Len(ca.types), O |-> FactsOf(ca.facts), labs |-> Empty, loops |-> <<>>, stack |-> <<>>,
        left |-> 0, unk |-> 0, why |-> <<>>, rv |-> <<>>, xp |-> <<>>, sc |-> Q1, terms |-> DecAll(ca.terms),
        chk |-> FALSE, bv |-> ca.bv, tr |-> <<>>]
After(c, m) ==
    LET ca == Cases[c]
        H == HeapOf(ca.h1)
        m1 == [m EXCEPT !.H = H, !.P = FullOn(H), !.oH = m.H, !.oP = m.P]
        rs == DecAll(ca.res)
    IN IF ca.kind = "fun" THEN With(m1, "$res", rs[1])
       ELSE LET me == Progs[ca.prog].meths[ca.name]
            IN [m1 EXCEPT !.v = [x \in DOMAIN @ \cup Range(me.rets) |->
                    IF x \in Range(me.rets) THEN rs[CHOOSE i \in 1..Len(me.rets) : me.rets[i] = x] ELSE @[x]]]

\* the verdict: [v |-> clause, i |-> its number, dec |-> clauses decided, all |-> clauses]
Res(v, i, k, d, n) == [v |-> v, i |-> i, k |-> k, dec |-> d, all |-> n]
Verdict(c) ==
    LET ca == Cases[c]
        f == IF ca.kind = "fun" THEN Progs[ca.prog].funcs[ca.name] ELSE Progs[ca.prog].meths[ca.name]
        m0 == Before(c)
        pre == ExhAll(f.pres, 1, m0, m0.P)
    IN IF pre.s = "fail" THEN Res("notpre", 0, pre.k, 0, 0)
       ELSE IF ca.raised THEN Res(IF pre.s = "ok" THEN "Raises" ELSE "unknown", 0, pre.k, 0, 0)
       ELSE LET m1 == After(c, m0)
                os == TLCEval([i \in 1..Len(f.posts) |-> Exh(f.posts[i], m1, m1.P)])
                bad == {i \in 1..Len(os) : os[i].s = "fail"}
                body == IF ca.kind = "fun" /\ f.hasbody THEN Eval(f.body, m0) ELSE U
                same == IF ~(ca.kind = "fun" /\ f.hasbody) THEN U ELSE IF IsErr(body) THEN body ELSE VEq(body, m1.v["$res"])
                dec == Cardinality({i \in 1..Len(os) : os[i].s = "ok"}) + (IF IsU(same) THEN 0 ELSE 1)
                n == Len(os) + (IF ca.kind = "fun" /\ f.hasbody THEN 1 ELSE 0)
            IN IF bad # {} THEN
                 LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                 IN IF pre.s # "ok" THEN Res("unknown", i, os[i].k, dec, n)
                    ELSE Res(IF os[i].k = "false" THEN "WrongResult" ELSE "IllDefined", i, os[i].k, dec, n)
               ELSE IF ca.kind = "fun" /\ f.hasbody /\ IsErr(same) THEN Res("IllDefined", 0, "body", dec, n)
               ELSE IF ca.kind = "fun" /\ f.hasbody /\ same = FF THEN Res("WrongResult", 0, "body", dec, n)
               ELSE Res("ok", 0, "", dec, n)

Init == \E c \in 1..Len(Cases) : st = <<"case", c>>
Next == /\ st[1] = "case"
        /\ LET r == Verdict(st[2])
           IN /\ PrintT(<<"OUT", ToJson([case |-> st[2], r |-> r])>>)
              /\ st' = <<"done", st[2], r.v>>
=============================================================================
