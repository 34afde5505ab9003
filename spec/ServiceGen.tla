---------------------------- MODULE ServiceGen ----------------------------
(* Random behaviours of Service as schedules for the real service.           *)
EXTENDS Service, Json, TLC
CONSTANTS MaxNoop, WithCancel
VARIABLES h, noop
gvars == <<s, h, noop>>
AllDone(st) == \A r \in Req : st.pc[r] = "done"
Pub(st) == [pc |-> st.pc, out |-> st.out, stops |-> st.stops]
GInit == Init /\ h = <<>> /\ noop = 0
GNext == ~AllDone(s) /\ \E e \in Events :
   /\ Enabled(s, e)
   /\ (e.a \in {"Cancel", "CancelAll"} => WithCancel)
   /\ s' = Effect(s, e)
   /\ (s' = s => noop < MaxNoop)
   /\ noop' = IF s' = s THEN noop + 1 ELSE noop
   /\ h' = Append(h, [a |-> e.a, r |-> e.r, pc |-> s'.pc, job |-> s'.job, tab |-> [t \in Tok |-> s'.tab[t]]])
GSpec == GInit /\ [][GNext]_gvars
Emit == AllDone(s) => PrintT(<<"SCHED", ToJson([kind |-> s.kind, tok |-> s.tok, steps |-> h])>>)
=============================================================================
