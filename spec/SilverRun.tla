----------------------------- MODULE SilverRun -----------------------------
(* Runs every case of the input and states its outcome. *)
EXTENDS Silver
VARIABLE m
Init == \E c \in 1..Len(Cases) : m = [st |-> "new", case |-> c]
Out(x) == PrintT(<<"OUT", ToJson([case |-> x.case, out |-> Outcome(x), n |-> x.n, left |-> x.left, unk |-> x.unk, why |-> IF x.st = "new" THEN <<>> ELSE x.why])>>)
Exec(x) == LET y == IF x.st = "new" THEN InitMachine(x.case) ELSE Step(x)
           IN IF y.st = "run" THEN y ELSE IF Out(y) THEN y ELSE y
Next == <<m.st \in {"new", "run"} /\ m' = Exec(m)>>_m
=============================================================================
