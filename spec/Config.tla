------------------------------ MODULE Config ------------------------------
(* S06: the configuration of the verification service and what each request *)
(* must therefore run with.  All option values are strings.                  *)
EXTENDS Naturals, Sequences, FiniteSets, Randomization
CONSTANTS MaxChange,        \* changes in one configure event
          Fronts            \* "mcp", "lsp", "main"

Keys == {"verifier", "sif", "intBitopsSize", "floatEncoding", "useViperServer",
         "disableBranchConditions", "z3Path", "boogiePath", "mypyPath"}
Values == [verifier |-> {"silicon", "carbon"}, sif |-> {"false", "true"},
           intBitopsSize |-> {"8", "16"}, floatEncoding |-> {"real", "ieee32"},
           useViperServer |-> {"true", "false"}, disableBranchConditions |-> {"true", "false"},
           z3Path |-> {"/z3/a", "/z3/b"}, boogiePath |-> {"/boogie/a", "/boogie/b"},
           mypyPath |-> {"LIBA", "LIBB"}]
Ignored == {"viperJarPath", "verifer", "z3_path"}     \* the jar cannot change; others are unknown keys
Changes == UNION { { [k |-> k, v |-> v] : v \in Values[k] } : k \in Keys }
             \cup { [k |-> k, v |-> "null"] : k \in Keys }
             \cup { [k |-> k, v |-> "x"] : k \in Ignored }

Default(front) == [verifier |-> "silicon", sif |-> "false", intBitopsSize |-> "8", floatEncoding |-> "null",
            useViperServer |-> IF front = "main" THEN "false" ELSE "true",
            disableBranchConditions |-> "false",
            z3Path |-> "/z3/default", boogiePath |-> "/boogie/default", mypyPath |-> "null"]

\* the last non-null change of every known key applies
UpdAll(o, q) == [k \in Keys |->
  LET I == { i \in DOMAIN q : q[i].k = k /\ q[i].v # "null" }
  IN IF I = {} THEN o[k] ELSE q[CHOOSE i \in I : \A j \in I : j <= i].v]

Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i].k # q[j].k
Pairs == { q \in Changes \X Changes : q[1].k # q[2].k }
CliChange(ch) == ch.v # "null" /\ ch.k \in Keys /\ ~(ch.k \in {"sif", "disableBranchConditions"} /\ ch.v = "false")
                 /\ ch.k # "useViperServer"
ChangeList(n) == { <<ch>> : ch \in Changes } \cup IF n < 2 THEN {} ELSE RandomSubset(30, Pairs)

\* a command line can set a value but has no null and no unknown key
CliSeqs == { <<>> } \cup { <<ch>> : ch \in { x \in Changes : CliChange(x) } }
           \cup IF MaxChange < 2 THEN {} ELSE { q \in Pairs : CliChange(q[1]) /\ CliChange(q[2]) }
Scenarios == { [front |-> f, cli |-> q, init |-> i] : f \in Fronts, q \in CliSeqs,
                 i \in IF "lsp" \in Fronts THEN { <<>> } \cup ChangeList(1) ELSE { <<>> } }

Start(c) == [front |-> c.front, done |-> FALSE,
             o |-> LET a == UpdAll(Default(c.front), c.cli)
                   IN IF c.front = "lsp" THEN UpdAll(a, c.init) ELSE a]

Files == {"plain", "lib"}
Events(st) ==
  IF st.done THEN {}
  ELSE { [a |-> "verify", f |-> f, ce |-> ce, ch |-> <<>>] : f \in Files,
                ce \in { b \in BOOLEAN : ~(b /\ st.front = "main" /\ st.o.verifier = "carbon") } }
       \cup IF st.front = "mcp" THEN { [a |-> "configure", f |-> "plain", ce |-> FALSE, ch |-> q]
                                        : q \in ChangeList(MaxChange) } ELSE {}
Effect(st, e) ==
  IF e.a = "configure" THEN [st EXCEPT !.o = UpdAll(st.o, e.ch)]
  ELSE [st EXCEPT !.done = st.front = "main"]

(* what the backend must see *)
Via(o)  == IF o.useViperServer = "true" /\ o.sif = "false" THEN "server" ELSE "direct"
Bc(o)   == IF o.verifier = "carbon" THEN "none" ELSE IF o.disableBranchConditions = "true" THEN "off" ELSE "on"
Ce(o,e) == o.verifier = "silicon" /\ e.ce
Lib(o)  == IF o.mypyPath = "LIBA" THEN "A" ELSE IF o.mypyPath = "LIBB" THEN "B" ELSE "none"
Rejected(o, e) == e.f = "lib" /\ o.mypyPath = "null"

Clause(st, e, s2, obs) ==
  LET o == s2.o IN
  IF obs.exc # "" THEN "RequestFails"
  ELSE IF e.a = "configure" /\ obs.report # o THEN "ReportedOptions"
  ELSE IF e.a = "configure" THEN "ok"
  ELSE IF obs.reported /\ obs.report # o THEN "ReportedOptionsLater"
  ELSE IF Rejected(o, e) THEN (IF obs.ran THEN "MypyPath" ELSE "ok")
  ELSE IF ~obs.ran THEN (IF e.f = "lib" THEN "MypyPath" ELSE "NotVerified")
  ELSE IF obs.backend # o.verifier THEN "Backend"
  ELSE IF obs.via # Via(o) THEN "ServerUse"
  ELSE IF obs.z3 # o.z3Path THEN "Z3Path"
  ELSE IF o.verifier = "carbon" /\ obs.boogie # o.boogiePath THEN "BoogiePath"
  ELSE IF o.verifier = "silicon" /\ obs.bc # Bc(o) THEN "BranchConditions"
  ELSE IF o.verifier = "silicon" /\ obs.ce # Ce(o, e) THEN "Counterexamples"
  ELSE IF e.f = "plain" /\ obs.bits # o.intBitopsSize THEN "IntBitopsSize"
  ELSE IF e.f = "plain" /\ obs.float # o.floatEncoding THEN "FloatEncoding"
  ELSE IF obs.sif # o.sif THEN "Sif"
  ELSE IF e.f = "plain" /\ ~obs.asfresh THEN "ProgramAsInFreshService"
  ELSE IF e.f = "lib" /\ obs.lib # Lib(o) THEN "MypyPath"
  ELSE "ok"

Inv(st) == \A k \in Keys : st.o[k] \in Values[k] \cup {Default(st.front)[k]}
=============================================================================
