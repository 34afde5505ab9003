------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* S02: what a request answers is a function of the request, the current   *)
(* options and the current contents of the files, and of nothing else the  *)
(* process did before.                                                     *)
(* A behaviour is a sequence of requests, changes of options and edits of  *)
(* files; Refs holds the answers of processes that served nothing but that *)
(* one request (recorded, one for every request/options/contents used).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils
CONSTANTS Fronts,           \* "server": service over the Viper server, "serial": service, direct backend, "cli": main --server
          MaxOpt            \* option changes in a behaviour

\* a palette of requests: file, restriction, counterexample, global statements ignored
Req(f, s, ce, ig) == [f |-> f, sel |-> s, ce |-> ce, ig |-> ig]
Requests == { Req(f, "", FALSE, FALSE) : f \in {"ok", "fail", "oblig", "reject", "typeerr", "classes", "uselib", "ghost", "globals", "io"} }
            \cup { Req("classes", s, FALSE, FALSE) : s \in {"C.m", "other", "C"} }
            \cup { Req("fail", "", TRUE, FALSE), Req("globals", "", FALSE, TRUE), Req("oblig", "loop", FALSE, FALSE),
                   Req("uselib", "use", TRUE, FALSE) }
\* the command line server reads the options once; a request has a file and a restriction
Allowed(front, r) == front # "cli" \/ (~r.ce /\ ~r.ig)

O(v, s, b, f, c) == [verifier |-> v, sif |-> s, bits |-> b, float |-> f, bc |-> c]
Opt == { O("silicon", "false", "8", "null", "on"), O("carbon", "false", "8", "null", "on"), O("silicon", "true", "8", "null", "on"),
         O("silicon", "false", "16", "null", "off"), O("silicon", "false", "8", "real", "on") }

Scenarios == { [front |-> f, o |-> o] : f \in Fronts, o \in Opt }
Start(c) == [front |-> c.front, o |-> c.o, v |-> [ok |-> 1, lib |-> 1], n |-> 0]

ConfigEvents(st) ==
  IF st.front = "cli" \/ st.n >= MaxOpt THEN {}
  ELSE { [a |-> "options", r |-> Req("ok", "", FALSE, FALSE), o |-> o, v |-> st.v] : o \in Opt \ {st.o} }
VerifyEvents(st) ==
  { [a |-> "verify", r |-> r, o |-> st.o, v |-> st.v] : r \in { x \in Requests : Allowed(st.front, x) } }
EditEvents(st) ==
  { [a |-> "edit", r |-> Req(f, "", FALSE, FALSE), o |-> st.o, v |-> [st.v EXCEPT ![f] = 3 - @]] : f \in {"ok", "lib"} }
Events(st) == VerifyEvents(st) \cup ConfigEvents(st) \cup EditEvents(st)

Effect(st, e) ==
  IF e.a = "options" THEN [st EXCEPT !.o = e.o, !.n = st.n + 1]
  ELSE IF e.a = "edit" THEN [st EXCEPT !.v[e.r.f] = 3 - @] ELSE st

\* answers of processes that served nothing but this one request
Refs == JsonDeserialize(IOEnv.REFS)
\* a request depends only on the files it reads
Relevant(e, v) == [ok |-> IF e.r.f = "ok" THEN v.ok ELSE 1, lib |-> IF e.r.f = "uselib" THEN v.lib ELSE 1]
Clause(st, e, s2, obs) ==
  IF obs.exc # "" THEN "RequestFails"
  ELSE IF e.a # "verify" THEN (IF e \in Events(st) THEN "ok" ELSE "NotABehaviour")
  ELSE IF e.o # st.o \/ e.v # st.v THEN "NotABehaviour"
  ELSE LET I == { i \in DOMAIN Refs : Refs[i].r = e.r /\ Refs[i].o = st.o /\ Refs[i].front = st.front
                                      /\ Refs[i].v = Relevant(e, st.v) }
       IN IF I = {} THEN "NoReference"
          ELSE LET f == Refs[CHOOSE i \in I : TRUE].obs
               IN IF obs.ran # f.ran THEN "BackendRuns"
                  ELSE IF obs.args # f.args THEN "BackendArguments"
                  ELSE IF obs.prog # f.prog THEN "BackendProgram"
                  ELSE IF obs.pos # f.pos THEN "BackendPositions"
                  ELSE IF obs.res # f.res THEN "Answer"
                  ELSE "ok"
Inv(st) == st.o \in Opt /\ \A f \in {"ok", "lib"} : st.v[f] \in {1, 2}
=============================================================================
