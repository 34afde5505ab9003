----------------------------- MODULE SilverConf -----------------------------
(***************************************************************************)
(* Conformance of a translation with the program it was made from.         *)
(*                                                                         *)
(* Each case names a program, a method, arguments, and what running the    *)
(* Python program does (recorded from CPython with its contracts executed  *)
(* as checks).  The translated method is executed by the semantics in      *)
(* Silver.tla; Verdict says whether the two agree and otherwise which      *)
(* clause is broken.                                                       *)
(*   expected  <<"ret", value>>, <<"raise", class>>, <<"infeasible">>,     *)
(*             <<"viol", kind, lines at fault, lines of the broken rule>>, *)
(*             <<"clean">>: some verified run (value not recorded),        *)
(*             <<"nofail", lines>>: may fail on the given lines only       *)
(***************************************************************************)
EXTENDS Silver
VARIABLE m

\* JSON lists for sets and dictionaries become TLA+ sets
RECURSIVE Norm(_)
Norm(v) ==
    CASE v[1] \in {"list", "tuple", "pseq"} -> <<v[1], TLCEval([i \in 1..Len(v[2]) |-> Norm(v[2][i])])>>
      [] v[1] = "set" -> <<"set", {Norm(v[2][i]) : i \in 1..Len(v[2])}>>
      [] v[1] = "dict" -> <<"dict", {<<Norm(v[2][i][1]), Norm(v[2][i][2])>> : i \in 1..Len(v[2])}>>
      [] OTHER -> v

\* do two shown values agree: "yes", "no", or "unknown" where one is not determined
RECURSIVE Same(_, _)
Same(x, y) ==
    IF x[1] = "unknown" \/ y[1] = "unknown" THEN "unknown"
    ELSE IF x[1] # y[1] THEN "no"
    ELSE IF x[1] \in {"list", "tuple", "pseq"} THEN
        IF Len(x[2]) # Len(y[2]) THEN "no"
        ELSE LET vs == {Same(x[2][i], y[2][i]) : i \in 1..Len(x[2])}
             IN IF "no" \in vs THEN "no" ELSE IF "unknown" \in vs THEN "unknown" ELSE "yes"
    ELSE IF x = y THEN "yes"
    ELSE IF x[1] \in {"set", "dict"} /\ <<"unknown">> \in (x[2] \cup y[2]) THEN "unknown"
    ELSE "no"

\* what a finished machine did
Result(x) ==
    IF x.st # "done" THEN Outcome(x)
    ELSE LET rets == Meth(x, x.meth).rets
             errs == {i \in 1..Len(rets) : rets[i] = "_err"}
             ress == {i \in 1..Len(rets) : rets[i] = "_res"}
             e == IF errs = {} THEN Null ELSE x.rv[CHOOSE i \in errs : TRUE]
         IN IF IsU(e) THEN <<"unk", "exceptional?">>
            ELSE IF e # Null THEN <<"raise", LET s == Show(x, e) IN IF s[1] = "obj" THEN s[2] ELSE "?">>
            ELSE <<"ret", IF ress = {} THEN <<"none">> ELSE Show(x, x.rv[CHOOSE i \in ress : TRUE])>>

In(l, ls) == \E i \in 1..Len(ls) : ls[i] = l
Runtime(k) == k \notin {"assert", "pre", "post", "inv", "exsures", "exception"}

\* of the application of a function only the place of the application is known
AppPre == {"apppre", "assert:apppre", "post:apppre", "inv:apppre", "pre:apppre", "fold:apppre", "exsures:apppre"}
LineOk(e, o) ==
    LET k == e[2] IN
    CASE k = "exception" -> TRUE
      [] k \in {"post", "inv", "exsures"} -> In(o[4], e[4])
      [] k = "pre" -> In(o[3], e[3]) /\ (In(o[4], e[4]) \/ o[4] = 0 \/ o[2] \in AppPre)
      [] OTHER -> In(o[3], e[3]) \/ In(o[4], e[3])

Verdict(e, o) ==
    CASE o[1] \in {"unk", "steps"} -> "Undetermined"
      [] o[1] = "infeasible" /\ e[1] \notin {"infeasible", "nofail"} -> "Unsatisfiable"   \* every claim holds vacuously
      [] e[1] = "infeasible" -> IF o[1] = "infeasible" THEN "ok" ELSE "PreconditionLost"
      [] e[1] = "ret" -> IF o[1] = "fail" THEN "SpuriousViolation"
                         ELSE IF o[1] = "raise" THEN "WrongException"
                         ELSE IF Same(Norm(e[2]), o[2]) = "no" THEN "WrongValue"
                         ELSE IF Same(Norm(e[2]), o[2]) = "unknown" THEN "Undetermined" ELSE "ok"
      [] e[1] = "clean" -> IF o[1] = "fail" THEN "SpuriousViolation" ELSE "ok"
      [] e[1] = "nofail" -> IF o[1] = "fail" /\ ~In(o[3], e[2]) /\ ~In(o[4], e[2]) THEN "SpuriousViolation" ELSE "ok"
      [] e[1] = "raise" -> IF o[1] = "fail" THEN "SpuriousViolation"
                           ELSE IF o[1] = "ret" THEN "MissedException"
                           ELSE IF o[2] = e[2] \/ o[2] = "?" THEN "ok" ELSE "WrongException"
      [] e[1] = "viol" -> IF o[1] # "fail" THEN "MissedViolation"
                          ELSE IF LineOk(e, o) THEN "ok" ELSE "WrongPlace"
      [] OTHER -> "Undetermined"

Init == \E c \in 1..Len(Cases) : m = [st |-> "new", case |-> c]
Out(x) == LET o == Result(x)
          IN PrintT(<<"OUT", ToJson([case |-> x.case, verdict |-> Verdict(Cases[x.case].exp, o), got |-> o,
                                     n |-> x.n, left |-> x.left, unk |-> x.unk, why |-> IF x.st = "new" THEN <<>> ELSE x.why])>>)
Exec(x) == LET y == IF x.st = "new" THEN InitMachine(x.case) ELSE Step(x)
           IN IF y.st = "run" THEN y ELSE IF Out(y) THEN y ELSE y
Next == <<m.st \in {"new", "run"} /\ m' = Exec(m)>>_m
=============================================================================
