------------------------------ MODULE Service ------------------------------
(* The verification service (service.py + viper_server.py): one action per   *)
(* critical section / external interaction of a request.                     *)
(*                                                                           *)
(*   Start       take the state lock and translate (or wait for the lock)    *)
(*   EndTrans    leave the translation, snapshot + clear the error state,    *)
(*               release the lock; a rejected program ends here              *)
(*   Submit      hand the program to the server                              *)
(*   Register    enter the job into the token table, wait for the answer     *)
(*   Deliver     the backend answers (before or after the registration)      *)
(*   Resume      the waiting thread wakes up, leaves the token table;        *)
(*               a failure needs the lock again                              *)
(*   EndConv     error conversion done, lock released                        *)
(*   Cancel/CancelAll   by the client, at any time                           *)
(*                                                                           *)
(* The state is one record so that the same Effect operator drives both the  *)
(* exhaustive search (Next) and the validation of recorded runs              *)
(* (ServiceTrace.tla).                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Req,        \* requests, 1..n
          Tok,        \* tokens, 1..k  (0 = request without token)
          Kinds       \* subset of {"ok", "fail", "reject", "crash"}

VARIABLE s

Idle0(kind, tok) ==
  [ kind  |-> kind,                      \* what the program of r deserves
    tok   |-> tok,
    pc    |-> [r \in DOMAIN kind |-> "idle"],
    lock  |-> 0,
    items |-> 0,                         \* owner of the global error items
    tab   |-> [t \in Tok |-> 0],
    job   |-> [r \in DOMAIN kind |-> "none"],     \* none, live, ended, stopped
    out   |-> [r \in DOMAIN kind |-> "none"],
    hit   |-> [r \in DOMAIN kind |-> FALSE],   \* a cancel was aimed at r's job
    stops |-> {} ]                       \* jobs the server was told to stop

Waiting(st) == { r \in DOMAIN st.kind : st.pc[r] \in {"wait", "got"} }

(* hand the lock to the waiting request, if any *)
Handover(st) ==
  IF Waiting(st) = {} THEN [st EXCEPT !.lock = 0]
  ELSE LET w == CHOOSE r \in Waiting(st) : TRUE
       IN [st EXCEPT !.lock = w,
                     !.items = w,
                     !.pc[w] = IF st.pc[w] = "wait" THEN "trans" ELSE "conv"]

Untab(st, r) == IF st.tok[r] # 0 /\ st.tab[st.tok[r]] = r
                THEN [st EXCEPT !.tab[st.tok[r]] = 0] ELSE st

\* a waiting thread notices the end of its job; one that has not registered yet will
Ended(st, r, j) == [st EXCEPT !.job[r] = j, !.pc[r] = IF st.pc[r] = "run" THEN "back" ELSE @]
StopJob(st, r) == [Ended(st, r, "stopped") EXCEPT !.hit[r] = TRUE, !.stops = @ \cup {r}]

RunningJobs(st) == { r \in DOMAIN st.kind : st.job[r] = "live" }

RECURSIVE StopAll(_, _)
StopAll(st, rs) == IF rs = {} THEN st
                   ELSE LET r == CHOOSE x \in rs : TRUE IN StopAll(StopJob(st, r), rs \ {r})

Enabled(st, e) ==
  CASE e.a = "Start"     -> st.pc[e.r] = "idle" /\ (st.lock = 0 \/ Waiting(st) = {})
    [] e.a = "EndTrans"  -> st.pc[e.r] = "trans"
    [] e.a = "Submit"    -> st.pc[e.r] = "submit"
    [] e.a = "Register"  -> st.pc[e.r] = "reg"
    [] e.a = "Deliver"   -> st.job[e.r] = "live"
    [] e.a = "Resume"    -> st.pc[e.r] = "back" /\ (st.lock = 0 \/ Waiting(st) = {} \/ st.kind[e.r] # "fail")
    [] e.a = "EndConv"   -> st.pc[e.r] = "conv"
    [] e.a = "Cancel"    -> e.r \in Tok
    [] e.a = "CancelAll" -> TRUE
    [] OTHER -> FALSE

Effect(st, e) ==
  CASE e.a = "Start" ->
         IF st.lock = 0 THEN [st EXCEPT !.pc[e.r] = "trans", !.lock = e.r, !.items = e.r]
                        ELSE [st EXCEPT !.pc[e.r] = "wait"]
    [] e.a = "EndTrans" ->
         LET b == IF st.kind[e.r] = "reject"
                  THEN [st EXCEPT !.pc[e.r] = "done", !.out[e.r] = "rejected", !.items = 0]
                  ELSE [st EXCEPT !.pc[e.r] = "submit", !.items = 0]
         IN Handover(b)
    [] e.a = "Submit" -> [st EXCEPT !.pc[e.r] = "reg", !.job[e.r] = "live"]
    [] e.a = "Register" ->
         LET b == [st EXCEPT !.pc[e.r] = IF st.job[e.r] = "live" THEN "run" ELSE "back"]
         IN IF st.tok[e.r] = 0 THEN b ELSE [b EXCEPT !.tab[st.tok[e.r]] = e.r]
    [] e.a = "Deliver" -> Ended(st, e.r, "ended")
    [] e.a = "Resume" ->
         LET b == Untab(st, e.r)
         IN IF st.job[e.r] = "stopped" THEN [b EXCEPT !.pc[e.r] = "done", !.out[e.r] = "cancelled"]
            ELSE IF st.kind[e.r] = "ok" THEN [b EXCEPT !.pc[e.r] = "done", !.out[e.r] = "success"]
            ELSE IF st.lock = 0 THEN [b EXCEPT !.pc[e.r] = "conv", !.lock = e.r, !.items = e.r]
            ELSE [b EXCEPT !.pc[e.r] = "got"]
    [] e.a = "EndConv" ->
         Handover([st EXCEPT !.pc[e.r] = "done", !.out[e.r] = IF st.items = e.r THEN "errors" ELSE "mixed",
                             !.items = 0])
    [] e.a = "Cancel" ->
         LET r == st.tab[e.r] IN IF r = 0 \/ st.job[r] # "live" THEN st ELSE StopJob(st, r)
    [] e.a = "CancelAll" -> StopAll(st, RunningJobs(st))
    [] OTHER -> st

Events == { [a |-> a, r |-> r] : a \in {"Start", "EndTrans", "Submit", "Register", "Deliver", "Resume", "EndConv"}, r \in Req }
          \cup { [a |-> "Cancel", r |-> t] : t \in Tok } \cup { [a |-> "CancelAll", r |-> 0] }

Init == \E kind \in [Req -> Kinds] : \E tok \in [Req -> Tok \cup {0}] : s = Idle0(kind, tok)

Next == \E e \in Events : Enabled(s, e) /\ s' = Effect(s, e) /\ s' # s

Spec == Init /\ [][Next]_s /\ WF_s(\E e \in Events : e.a \notin {"Start", "Cancel", "CancelAll"}
                                      /\ Enabled(s, e) /\ s' = Effect(s, e))

---------------------------------------------------------------------------
(* what the properties say about the design *)
MutualExclusion == Cardinality({ r \in Req : s.pc[r] \in {"trans", "conv"} }) <= 1
LockOwner == \A r \in Req : (s.pc[r] \in {"trans", "conv"}) <=> (s.lock = r)
Own(r) == CASE s.kind[r] = "ok" -> "success" [] s.kind[r] = "fail" -> "errors" [] OTHER -> "rejected"
Isolation == \A r \in Req : s.pc[r] = "done" =>
               s.out[r] = IF s.hit[r] THEN "cancelled" ELSE Own(r)
OwnItems == \A r \in Req : s.pc[r] = "conv" => s.items = r
TokenPrecise == \A t \in Tok : s.tab[t] # 0 => s.pc[s.tab[t]] \in {"run", "back"} /\ s.tok[s.tab[t]] = t
CancelPrecise == [][\A r \in Req : (s'.out[r] = "cancelled" /\ s.out[r] # "cancelled") =>
                       s.job[r] = "stopped"]_s
StopPrecise == [][\A r \in Req : (r \in s'.stops /\ r \notin s.stops) => s.job[r] = "live"]_s
NoStuck == (\A e \in Events : ~(Enabled(s, e) /\ Effect(s, e) # s))
           => \A r \in Req : s.pc[r] = "done"
Progress == \A r \in Req : (s.pc[r] # "idle") ~> (s.pc[r] = "done")
=============================================================================
