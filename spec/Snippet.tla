------------------------------ MODULE Snippet ------------------------------
(* S07: the tool server's requests for a snippet, a method or a file, in     *)
(* overlapping runs.  A snippet is written to a private file, verified and   *)
(* removed.  The answer of a request is that of verifying the file with its  *)
(* content under its parameters (Refs: recorded from the service alone);     *)
(* what it leaves behind is nothing, however it ends.                        *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, Randomization
CONSTANTS MaxRuns, Sample     \* Sample: generate with a few requests at a time

Progs == {"ok", "fail", "classes", "globals", "reject", "typeerr", "syntax"}
Methods == {"C.m", "m", "other", "C", "nosuch"}       \* of program "classes"
P(ce, ig, va, iv) == [ce |-> ce, ig |-> ig, va |-> va, iv |-> iv]
Pars == { P(FALSE, FALSE, "", FALSE), P(TRUE, FALSE, "", FALSE), P(FALSE, TRUE, "", FALSE), P(FALSE, FALSE, "--timeout=60", FALSE),
          P(FALSE, FALSE, "", TRUE), P(TRUE, TRUE, "--timeout=60", TRUE) }
Q(k, p, m, par) == [k |-> k, prog |-> p, meth |-> m, par |-> par, dir |-> FALSE]
Requests ==
  { Q("snippet", p, "", par) : p \in Progs, par \in Pars }
  \cup { Q("method", "classes", m, par) : m \in Methods, par \in { x \in Pars : ~x.ig } \cup {P(TRUE, FALSE, "--timeout=60", TRUE)} }
  \cup { Q("file", "classes", m, par) : m \in Methods \cup {""}, par \in Pars }
  \cup { [Q("file", "sub", "", P(FALSE, FALSE, "", FALSE)) EXCEPT !.dir = b] : b \in BOOLEAN }
\* how the backend answers, if it is asked; "writefails": the private file cannot be written
Ends == {"normal", "crash"}
NoReq == Q("file", "ok", "", P(FALSE, FALSE, "", FALSE))

Scenarios == { [x |-> 0] }
Start(c) == [runs |-> <<>>, drained |-> FALSE]
E(a, r, q, tok, end) == [a |-> a, r |-> r, q |-> q, tok |-> tok, end |-> end]
Reaches(q) == q.prog \notin {"reject", "typeerr", "syntax"} /\ ~(q.prog = "sub" /\ ~q.dir)
Live(st) == { r \in DOMAIN st.runs : st.runs[r].pc # "done" }
Events(st) ==
  IF st.drained THEN {} ELSE
  (IF Len(st.runs) < MaxRuns
   THEN { E("Request", Len(st.runs) + 1, q, t, e) : q \in IF Sample THEN RandomSubset(4, Requests) ELSE Requests, t \in BOOLEAN, e \in Ends }
        \cup { E("Request", Len(st.runs) + 1, q, FALSE, "writefails") : q \in { x \in Requests : x.k = "snippet" /\ x.prog = "ok" } }
   ELSE {})
  \cup { E(a, r, NoReq, FALSE, "-") : a \in {"Begin", "Abandon"}, r \in { x \in Live(st) : st.runs[x].pc = "begin" /\ ~st.runs[x].gone } }
  \cup { E("Abandon", r, NoReq, FALSE, "-") : r \in { x \in Live(st) : st.runs[x].pc = "run" /\ ~st.runs[x].gone } }
  \cup { E("Deliver", r, NoReq, FALSE, "-") : r \in { x \in Live(st) : st.runs[x].pc = "run" } }
  \cup { E("Cancel", r, NoReq, TRUE, "-") : r \in { x \in Live(st) : st.runs[x].tok } }
Effect(st, e) ==
  IF e.a = "Request" THEN
    [st EXCEPT !.runs = Append(@, [q |-> e.q, tok |-> e.tok, end |-> e.end, can |-> FALSE, gone |-> FALSE,
                                   pc |-> IF e.end = "writefails" THEN "done" ELSE "begin"])]
  ELSE IF e.a = "Begin" THEN [st EXCEPT !.runs[e.r].pc = IF Reaches(st.runs[e.r].q) THEN "run" ELSE "done"]
  ELSE IF e.a = "Deliver" THEN [st EXCEPT !.runs[e.r].pc = "done"]
  ELSE IF e.a = "Cancel" THEN
    (IF st.runs[e.r].pc = "run" THEN [st EXCEPT !.runs[e.r].pc = "done", !.runs[e.r].can = TRUE] ELSE st)
  ELSE IF e.a = "Abandon" THEN [st EXCEPT !.runs[e.r].gone = TRUE]      \* the client gives up waiting
  ELSE [st EXCEPT !.runs = [r \in DOMAIN st.runs |-> [st.runs[r] EXCEPT !.pc = "done"]], !.drained = TRUE]

Refs == JsonDeserialize(IOEnv.REFS)
RefQ(q) == IF q.k = "snippet" THEN [q EXCEPT !.k = "file"] ELSE IF q.k = "method" THEN [q EXCEPT !.k = "file"] ELSE q
Ref(x) == LET I == { i \in DOMAIN Refs : Refs[i].q = RefQ(x.q) /\ Refs[i].end = x.end }
          IN IF I = {} THEN [none |-> TRUE] ELSE Refs[CHOOSE i \in I : TRUE].obs

\* a.done[r]: the answer of run r, once it ended and the client still waits
ClauseR(st, r, a) ==
  LET x == st.runs[r] IN
  IF x.gone \/ x.end = "writefails" THEN "ok"
  ELSE IF ~a.answered THEN (IF x.pc = "done" THEN "NoAnswer" ELSE "ok")
  ELSE IF x.can THEN (IF a.cancelled THEN "ok" ELSE "CancelIgnored")
  ELSE IF x.pc # "done" THEN "AnswerTooEarly"
  ELSE IF Ref(x) = [none |-> TRUE] THEN "NoReference"
  ELSE IF a.args # Ref(x).args THEN "BackendArguments"
  ELSE IF a.prog # Ref(x).prog THEN "BackendProgram"
  ELSE IF a.reply # Ref(x).reply THEN "Answer"
  ELSE "ok"
Clause(st, e, s2, o) ==
  LET B == { r \in DOMAIN s2.runs : ClauseR(s2, r, o.ans[r]) # "ok" }
      running == { r \in Live(s2) : s2.runs[r].q.k = "snippet" } IN
  IF B # {} THEN ClauseR(s2, CHOOSE r \in B : TRUE, o.ans[CHOOSE r \in B : TRUE])
  ELSE IF o.changed # "" THEN "UserFilesChanged"
  ELSE IF o.left > Cardinality(running) THEN "FilesLeftBehind"
  ELSE "ok"
Inv(st) == \A r \in DOMAIN st.runs : st.runs[r].can => st.runs[r].tok /\ st.runs[r].pc = "done"
=============================================================================
