--------------------------- MODULE ServiceTrace ---------------------------
(* Validates recorded runs of the real service against Service.              *)
(* A run: [kind, tok, steps: <<[a, r, obs]>>], obs = what was seen after the *)
(* step: obs.pc[r] the interaction point of request r's thread, obs.out[r]   *)
(* the class of its result, obs.same[r] whether result and diagnostics equal *)
(* those of the request served alone, obs.nd[r] its number of diagnostics,   *)
(* obs.stops the requests whose jobs the server was told to stop.            *)
EXTENDS Service, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE)

VARIABLES run, i, verdict
tvars == <<s, run, i, verdict>>

Rng(q) == { q[k] : k \in DOMAIN q }
Vis(p) == IF p \in {"wait", "got"} THEN "blocked" ELSE p

Clause(st, o) ==
  IF \E r \in DOMAIN st.kind : st.pc[r] = "done" /\ o.pc[r] # "done" THEN "RequestEnds"
  ELSE IF \E r \in DOMAIN st.kind : st.pc[r] # "done" /\ o.pc[r] = "done" THEN "EndsOnlyWhenDone"
  ELSE IF \E r \in DOMAIN st.kind : o.pc[r] # Vis(st.pc[r]) THEN "InteractionOrder"
  ELSE IF Rng(o.stops) # st.stops THEN "StopsExactlyCancelledJobs"
  ELSE IF \E r \in DOMAIN st.kind : o.out[r] # st.out[r] THEN "ResultClass"
  ELSE IF \E r \in DOMAIN st.kind : st.out[r] \in {"success", "errors", "rejected"} /\ ~o.same[r]
       THEN "ResultIsOwn"
  ELSE IF \E r \in DOMAIN st.kind : st.out[r] = "cancelled" /\ o.nd[r] # 0 THEN "CancelledHasNoDiagnostics"
  ELSE "ok"

TInit == /\ run \in 1..Len(Runs)
         /\ i = 0
         /\ s = Idle0(Runs[run].kind, Runs[run].tok)
         /\ verdict = "ok"
TNext == /\ verdict = "ok" /\ i < Len(Runs[run].steps)
         /\ LET e == Runs[run].steps[i + 1]
            IN /\ i' = i + 1
               /\ IF Enabled(s, e)
                  THEN s' = Effect(s, e) /\ verdict' = Clause(s', e.obs)
                  ELSE s' = s /\ verdict' = "NotEnabled"
         /\ UNCHANGED run
TSpec == TInit /\ [][TNext]_tvars
Report ==
  /\ verdict # "ok" => PrintT(<<"VERDICT", ToJson([run |-> run, step |-> i, clause |-> verdict,
                                expected |-> [pc |-> s.pc, out |-> s.out, stops |-> s.stops],
                                event |-> Runs[run].steps[i]])>>)
  /\ (verdict = "ok" /\ i = Len(Runs[run].steps)) => PrintT(<<"ACCEPTED", ToJson([run |-> run])>>)
=============================================================================
