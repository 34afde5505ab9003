------------------------------- MODULE Report -------------------------------
(* E01: what a report must say about a failing check.

   A program is given by its syntax nodes (range, class, name of the called function, source text, enclosing contract call), a
   case by what Python says fails (kind, lines, lines of the contract) and the error the backend reports, a report
   by what the user is shown. Every case needs a report that fits it and every report a case it fits. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

DATA == JsonDeserialize(IOEnv.REPORT_INPUT)
Programs == DATA.programs

Has(q, P(_)) == \E i \in 1..Len(q): P(q[i])
Statements == {"Assign", "AnnAssign", "AugAssign", "Expr", "Return", "If", "While", "For", "Assert", "Raise", "Try", "With", "Delete", "Match"}
Contracts == {"Requires", "Ensures", "Exsures", "Invariant", "Assert", "Assume", "Fold", "Unfold", "Acc", "Implies", "Forall", "Exists", "Old", "Result"}

(* the construct a failure of this kind is reported at *)
Construct(c, n) ==
  CASE c.kind \in {"term", "level"} -> TRUE
    [] c.code = "assert.failed" -> n.cls = "Assert" \/ (n.cls = "Call" /\ n.name = "Assert")
    [] c.code = "fold.failed" -> n.cls = "Call" /\ n.name = "Fold"
    [] c.code = "unfold.failed" -> n.cls = "Call" /\ n.name \in {"Unfold", "Unfolding"}
    [] c.code = "postcondition.violated" ->
         IF c.kind \in {"exception", "leak"} THEN n.cls = "FunctionDef" ELSE n.con \in {"Ensures", "Exsures"} /\ n.whole
    [] c.code \in {"invariant.not.established", "invariant.not.preserved"} ->
         (n.con = "Invariant" /\ n.whole) \/ (c.kind = "leak" /\ n.cls \in {"While", "For"})
    [] c.code = "call.precondition" ->
         (* a call, an operator with a contract, or the override check of a method *)
         n.cls \notin Statements /\ n.name \notin Contracts /\ (n.cls = "FunctionDef" => c.override)
    [] c.code = "application.precondition" -> n.cls \notin Statements \cup {"FunctionDef", "Name", "Constant"} /\ n.name \notin Contracts
    [] c.code \in {"assignment.failed", "call.failed", "if.failed", "while.failed"} -> n.cls # "FunctionDef"
    [] OTHER -> TRUE

(* it is at a line that fails *)
AtLine(c, n) ==
  IF c.kind = "exception" THEN n.cls = "FunctionDef" ELSE
  IF n.con \in {"Ensures", "Exsures", "Invariant"} /\ c.kind \in {"post", "inv", "exsures", "exception"}
  THEN Has(c.clines, LAMBDA l: n.c1 <= l /\ l <= n.c2)
  ELSE Has(c.lines \o c.clines, LAMBDA l: n.r[1] <= l /\ l <= n.r[3])

CodeOk(c, g) ==
  CASE c.kind = "leak" -> g.code = "leak_check.failed" \/ g.code = c.code
    [] c.kind \in {"term", "level"} -> g.code \in {"leak_check.failed", "termination_check.failed", "wait_level.invalid", c.code}
    [] OTHER -> g.code = c.code /\ g.why = c.rid

Text(g, n) ==
  CASE g.why = "assertion.false" -> g.reason = "Assertion " \o n.src \o " might not hold."
    [] g.why = "insufficient.permission" -> g.reason = "There might be insufficient permission to access " \o n.src \o "."
    [] OTHER -> TRUE

(* the reason is named where it was written *)
ReasonAt(c, g, n) ==
  CASE c.code = "call.precondition" /\ c.kind = "pre" /\ ~c.builtin -> n.con = "Requires" /\ Has(c.clines, LAMBDA l: n.c1 <= l /\ l <= n.c2)
    [] c.code \in {"postcondition.violated", "invariant.not.established", "invariant.not.preserved"} /\ c.kind # "exception" ->
         n.con \in {"Ensures", "Exsures", "Invariant"} /\ Has(c.clines, LAMBDA l: n.c1 <= l /\ l <= n.c2)
    [] OTHER -> TRUE

Faults(p, c, g) ==
  LET here == {i \in 1..Len(p.nodes): p.nodes[i].r = g.r}
      fit == {i \in here: Construct(c, p.nodes[i])}
      why == {i \in 1..Len(p.nodes): p.nodes[i].r[1] = g.rl /\ p.nodes[i].r[2] = g.rc}
      reasoned == g.why \in {"assertion.false", "insufficient.permission"} /\ c.kind # "exception"
  IN (IF g.file # p.file THEN {"WrongFile"} ELSE {})
     \cup (IF ~CodeOk(c, g) THEN {"WrongCode"} ELSE {})
     \cup (IF here = {} THEN {"NoSuchConstruct"} ELSE IF fit = {} THEN {"WrongConstruct"}
           ELSE IF ~\E i \in fit: AtLine(c, p.nodes[i]) THEN {"WrongLine"}
           ELSE IF c.at # "" /\ ~\E i \in here: p.nodes[i].src = c.at THEN {"WrongPart"} ELSE {})
     \cup (IF ~reasoned THEN {}
           ELSE IF ~\E i \in why: ReasonAt(c, g, p.nodes[i]) THEN {"WrongReasonPlace"}
           ELSE IF ~\E i \in why: ReasonAt(c, g, p.nodes[i]) /\ Text(g, p.nodes[i]) /\ (c.why = "" \/ p.nodes[i].src = c.why)
                THEN {"WrongReason"} ELSE {})

(* the report that says most of what is right *)
Fewest(S, F(_)) == CHOOSE x \in S: \A y \in S: Cardinality(F(x)) <= Cardinality(F(y))

VARIABLE x
Init == x \in UNION {{<<p, "case", i>> : i \in 1..Len(Programs[p].cases)} \cup {<<p, "diag", i>> : i \in 1..Len(Programs[p].diags)} : p \in 1..Len(Programs)}
Next == FALSE /\ x' = x
Verdict ==
  LET p == Programs[x[1]]
      F(c, d) == Faults(p, p.cases[c], p.diags[d])
      C == 1..Len(p.cases)
      D == 1..Len(p.diags)
      name(s) == IF "WrongCode" \in s /\ Cardinality(s) > 1 THEN (IF x[2] = "case" THEN "NotReported" ELSE "Unexplained") ELSE CHOOSE e \in s: TRUE
  IN IF x[2] = "case"
     THEN IF D = {} THEN "NotReported"
          ELSE LET G(d) == F(x[3], d) b == G(Fewest(D, G)) IN IF b = {} THEN "ok" ELSE name(b)
     ELSE IF C = {} THEN "Unexplained"
          ELSE LET G(c) == F(c, x[3]) b == G(Fewest(C, G)) IN IF b = {} THEN "ok" ELSE name(b)
Inv == PrintT(<<"OUT", ToJson([prog |-> x[1], what |-> x[2], i |-> x[3], v |-> Verdict])>>)
=============================================================================
