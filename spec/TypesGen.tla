------------------------------ MODULE TypesGen ------------------------------
(* T06: the class hierarchies that are looked at. A class has a number of type parameters and a superclass, which is a type
   over these parameters. *)
EXTENDS Naturals, Sequences, TLC, Json

Names == <<"Ca", "Cb", "Cc", "Cd">>
CONSTANT Max
VARIABLE cls

T(f, a) == [f |-> f, a |-> a]
Params(n) == {T("?" \o ToString(i), <<>>) : i \in 1..n}
RECURSIVE Args(_, _)
Args(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(q, t) : q \in Args(S, n - 1), t \in S}
IsExc(j) == LET r == cls[j].sup.f IN r = "Exception" \/ \E k \in 1..(j - 1): Names[k] = r /\ cls[k].exc
Supers(n) ==
  {T("object", <<>>)} \cup (IF n = 0 THEN {T("Exception", <<>>)} ELSE {})
  \cup UNION {{T(Names[j], q) : q \in Args(Params(n) \cup {T("int", <<>>)}, cls[j].n)} : j \in {k \in 1..Len(cls): n = 0 \/ ~cls[k].exc}}

Init == cls = <<>>
Next == /\ Len(cls) < Max
        /\ \E n \in 0..(IF Len(cls) < 2 THEN 2 ELSE 1): \E s \in Supers(n):
             cls' = Append(cls, [n |-> n, sup |-> s, exc |-> s.f = "Exception" \/ \E k \in 1..Len(cls): Names[k] = s.f /\ cls[k].exc])
Emit == Len(cls) = Max => PrintT(<<"OUT", ToJson([cls |-> cls])>>)
=============================================================================
