------------------------------- MODULE Editor -------------------------------
(* S05: what the editor shows for a document.  Opening, saving and "verify   *)
(* method" each start a run of the document; runs of one or of different     *)
(* documents overlap arbitrarily between translation, submission, the        *)
(* registration of the job, the backend's answer and the return to the       *)
(* server.  A new run of a document cancels the registered job of an older   *)
(* one.  An older run that cannot be cancelled any more must not overwrite   *)
(* what a newer one shows.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS MaxRuns, Docs

Kinds == {"ok", "fail", "reject", "crash"}
Vias  == {"open", "save", "method"}
Scenarios == { [lazy |-> b] : b \in BOOLEAN }      \* is the service built by the first run, or there already
\* tab: the run whose job is registered for the document, or 0;  shown: the run shown, or 0
Start(c) == [runs |-> <<>>, tab |-> [u \in Docs |-> 0], shown |-> [u \in Docs |-> 0], drained |-> FALSE]

Newest(st, u) == LET I == { r \in DOMAIN st.runs : st.runs[r].u = u }
                 IN IF I = {} THEN 0 ELSE CHOOSE r \in I : \A x \in I : x <= r
E(a, r, u, k, v) == [a |-> a, r |-> r, u |-> u, kind |-> k, via |-> v]
NoDoc == "-"
Events(st) ==
  IF st.drained THEN {} ELSE
  { E("Request", Len(st.runs) + 1, u, k, v) : u \in Docs, k \in Kinds, v \in IF Len(st.runs) < MaxRuns THEN Vias ELSE {} }
  \cup { E("Step", r, NoDoc, "-", "-") : r \in { x \in DOMAIN st.runs : st.runs[x].pc \in {"trans", "sub"} } }
  \cup { E("Deliver", r, NoDoc, "-", "-") : r \in { x \in DOMAIN st.runs : st.runs[x].pc = "run" } }
  \cup { E("Publish", r, NoDoc, "-", "-") : r \in { x \in DOMAIN st.runs : st.runs[x].pc = "end" } }

Publishes(st, r) == ~st.runs[r].can /\ Newest(st, st.runs[r].u) = r
Effect(st, e) ==
  IF e.a = "Request" THEN
    LET o == st.tab[e.u]
        rs == IF o = 0 THEN st.runs ELSE [st.runs EXCEPT ![o].pc = "end", ![o].can = TRUE]
    IN [st EXCEPT !.runs = Append(rs, [u |-> e.u, kind |-> e.kind, pc |-> IF e.kind = "reject" THEN "end" ELSE "trans",
                                       can |-> FALSE]),
                  !.tab[e.u] = 0]
  ELSE IF e.a = "Step" THEN
    IF st.runs[e.r].pc = "trans" THEN [st EXCEPT !.runs[e.r].pc = "sub"]
    ELSE [st EXCEPT !.runs[e.r].pc = "run", !.tab[st.runs[e.r].u] = e.r]
  ELSE IF e.a = "Deliver" THEN
    [st EXCEPT !.runs[e.r].pc = "end",
               !.tab = [u \in Docs |-> IF st.tab[u] = e.r THEN 0 ELSE st.tab[u]]]
  ELSE IF e.a = "Publish" THEN
    [st EXCEPT !.runs[e.r].pc = "done",
               !.shown = [u \in Docs |-> IF u = st.runs[e.r].u /\ Publishes(st, e.r) THEN e.r ELSE st.shown[u]]]
  ELSE \* Drain: everything comes to its end
    [st EXCEPT !.runs = [r \in DOMAIN st.runs |-> [st.runs[r] EXCEPT !.pc = "done"]],
               !.tab = [u \in Docs |-> 0], !.drained = TRUE,
               !.shown = [u \in Docs |-> Newest(st, u)]]

(* --- observations: pubs[u] is the sequence of contents published for u so  *)
(* far; a content is "clean", "crash" or the name of the only run that can   *)
(* have it (a sequence number); hover[u] the content hovering offers.        *)
Content(st, r) == IF st.runs[r].kind = "ok" THEN "clean" ELSE IF st.runs[r].kind = "crash" THEN "crash" ELSE "run"
Fits(st, u, r, p) == /\ st.runs[r].u = u /\ p.what = Content(st, r) /\ (p.what = "run" => p.run = r)
RECURSIVE Assign(_, _, _, _, _)
\* the smallest run that can have published entry i, given the one of entry i - 1; 0 if there is none
Assign(st, u, ps, i, low) ==
  IF i > Len(ps) THEN low
  ELSE LET I == { r \in DOMAIN st.runs : r >= low /\ Fits(st, u, r, ps[i]) }
       IN IF I = {} THEN 0 ELSE Assign(st, u, ps, i + 1, CHOOSE r \in I : \A x \in I : r <= x)

ClauseU(st, u, ps, hover) ==
  IF \E i \in DOMAIN ps : ps[i].what = "unknown" THEN "UnknownDiagnostics"
  ELSE IF \E i \in DOMAIN ps : \A r \in DOMAIN st.runs : ~Fits(st, u, r, ps[i]) THEN "OtherDocumentsResult"
  ELSE IF ps # <<>> /\ Assign(st, u, ps, 1, 1) = 0 THEN "SupersededRunOverwrites"
  ELSE IF hover # IF ps = <<>> \/ ps[Len(ps)].what # "run" THEN 0
                  ELSE IF st.runs[ps[Len(ps)].run].kind = "fail" THEN ps[Len(ps)].run ELSE 0
       THEN "HoverDiffersFromShown"
  ELSE IF st.drained /\ Newest(st, u) # 0 THEN
    (IF ps = <<>> THEN "NothingShown"
     ELSE IF ~Fits(st, u, Newest(st, u), ps[Len(ps)]) THEN "NewestNotShown" ELSE "ok")
  ELSE "ok"
Clause(st, e, s2, o) ==
  IF o.exc # "" THEN "ServerFails"
  ELSE IF o.services > 1 THEN "SeveralServices"
  ELSE LET B == { u \in Docs : ClauseU(s2, u, o.pubs[u], o.hover[u]) # "ok" }
       IN IF B = {} THEN "ok" ELSE LET u == CHOOSE x \in B : TRUE IN ClauseU(s2, u, o.pubs[u], o.hover[u])

Inv(st) == \A u \in Docs :
  LET n == Newest(st, u) IN
  /\ st.shown[u] <= n
  /\ n # 0 => ~st.runs[n].can                                   \* the newest run is never cancelled
  /\ (\A r \in DOMAIN st.runs : st.runs[r].u = u => st.runs[r].pc = "done") => st.shown[u] = n
  /\ st.tab[u] # 0 => st.runs[st.tab[u]].u = u
=============================================================================
