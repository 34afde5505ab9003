------------------------------ MODULE Endings ------------------------------
(* S03: every way a verification request can end, and what the user may then *)
(* be told.  A request passes the translator (which can reject it or crash)  *)
(* and the backend (which can succeed, fail with any set of errors, time     *)
(* out, abort, raise, answer nothing or be stopped).  Only the single path   *)
(* translated and backend success may be reported as success, and the front  *)
(* must keep serving afterwards.                                             *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Fronts,    \* subset of the fronts below
          MaxErr     \* errors in one failure

Server  == {"server_si", "server_ca", "mcp", "lsp"}      \* requests run in ViperServer
Direct  == {"serial_si", "serial_ca", "serial_sif", "mcp_direct", "lsp_direct"}
Cli     == {"cli", "cli_ca", "cli_vs", "cli_sif"}         \* one request, then an exit code
Loop    == {"loop", "loop_vs"}                            \* the command-line server
ViaServer == Server \cup {"cli_vs", "loop_vs"}

Places  == 1..8                     \* checks of the program that can fail
TransBad == {"typeerr", "syntax", "invalid", "unsupported", "inconsistent", "nofile", "crash", "javacrash"}
BackBad == {"fail", "empty", "timeout", "timeout2", "abort", "null", "jexc", "pyexc"}
Sub(f) == IF f \in ViaServer THEN {"submitexc"} ELSE {}
Stop(f) == IF f \in Server THEN {"stopped"} ELSE {}

Scenarios == { [front |-> f, env |-> v] : f \in Fronts,
                 v \in {"full", "noserver", "nobackend"} }
Start(c) == [front |-> c.front, env |-> IF c.front \in ViaServer \/ c.env # "noserver" THEN c.env ELSE "full",
             done |-> FALSE, served |-> 0]

ErrSets == { S \in SUBSET Places : Cardinality(S) \in 1..MaxErr }
Events(st) ==
  IF st.done THEN {}
  ELSE { [tr |-> t, be |-> "none", errs |-> {}] : t \in TransBad }
       \cup { [tr |-> "ok", be |-> b, errs |-> {}] :
                b \in ({"success"} \cup BackBad \cup Sub(st.front) \cup Stop(st.front)) \ {"fail"} }
       \cup { [tr |-> "ok", be |-> "fail", errs |-> S] : S \in ErrSets }
Effect(st, e) == [st EXCEPT !.done = st.front \in Cli, !.served = @ + 1]

(* where the program is verified, if at all *)
Where(st) == IF st.front \in ViaServer /\ st.env = "full" THEN "server"
             ELSE IF st.env = "nobackend" THEN "nowhere" ELSE "direct"
Expected(st, e) ==
  IF e.tr # "ok" THEN e.tr
  ELSE IF Where(st) = "nowhere" THEN "missing"
  ELSE IF Where(st) # "server" /\ e.be \in {"submitexc", "stopped"} THEN "success"
  ELSE e.be

(* what the observation o must be: o.kind one of "success", "rejected",      *)
(* "errors", "cancelled", "exception" (an error handed to the caller).       *)
Names == [typeerr |-> {"type.error"}, syntax |-> {"type.error"}, invalid |-> {"invalid.program"},
          unsupported |-> {"unsupported"}, inconsistent |-> {"consistency.error"}]
Given(o)  == { <<g.file, g.l1, g.c1, g.l2, g.c2>> : g \in { o.given[i] : i \in DOMAIN o.given } }
Shown(o)  == { <<g.file, g.l1, g.c1, g.l2, g.c2>> : g \in { o.shown[i] : i \in DOMAIN o.shown } }
\* a place is where the error is, or where its reason is
Reasons(o) == { <<g.l1, g.c1, g.r1, g.r2>> : g \in { o.given[i] : i \in DOMAIN o.given } }
RShown(o)  == { <<g.l1, g.c1, g.r1, g.r2>> : g \in { o.shown[i] : i \in DOMAIN o.shown } }

Clause(st, e, s2, o) ==
  LET x == Expected(st, e) IN
  IF o.kind = "none" THEN "NoAnswer"
  ELSE IF x = "success" THEN (IF o.kind = "success" THEN IF o.exit = 0 THEN "ok" ELSE "SuccessExitCode"
                              ELSE "SuccessNotReported")
  ELSE IF o.kind = "success" THEN "FalseSuccess"
  ELSE IF o.exit = 0 THEN "FalseSuccessExitCode"
  ELSE IF x # "stopped" /\ o.kind = "cancelled" THEN "NotCancelled"
  ELSE IF x \in DOMAIN Names THEN
    (IF o.kind # "rejected" THEN "NotReportedAsRejected"
     ELSE IF Names[x] \cap { o.codes[i] : i \in DOMAIN o.codes } = {} THEN "RejectionNotNamed" ELSE "ok")
  ELSE IF x \in {"nofile", "crash", "javacrash", "missing", "null", "jexc", "pyexc", "submitexc"} THEN
    (IF o.said THEN "ok" ELSE "EndingNotNamed")
  ELSE IF x = "stopped" THEN
    (IF o.kind = "cancelled" /\ o.shown = <<>> THEN "ok" ELSE "CancelledNotReported")
  ELSE IF o.kind # "errors" THEN "NotReportedAsErrors"
  ELSE IF x \in {"timeout", "timeout2", "abort"} /\ ~o.named THEN "EndingNotNamed"
  ELSE IF x \in {"fail", "timeout2"} /\ ~(Given(o) \subseteq Shown(o)) THEN "ErrorLost"
  ELSE IF x \in {"fail", "timeout2"} /\ o.reasons /\ ~(Reasons(o) \subseteq RShown(o)) THEN "ErrorOfOtherReasonLost"
  ELSE IF x = "fail" /\ ~(Shown(o) \subseteq Given(o)) THEN "ErrorInvented"
  ELSE "ok"

\* sanity of the specification: success is expected in one way only
Inv(st) == \A e \in Events(st) :
  Expected(st, e) = "success" => /\ e.tr = "ok" /\ Where(st) # "nowhere"
                                 /\ (e.be = "success" \/ (Where(st) # "server" /\ e.be \in {"submitexc", "stopped"}))
=============================================================================
