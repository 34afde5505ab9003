----------------------------- MODULE Selection -----------------------------
(* T09: what a selection of Python members must leave of the translated      *)
(* program.  A program has members (functions, methods of classes); its      *)
(* translation has items: methods that check something (with a body),        *)
(* contracts (methods without a body), functions, predicates.  Each item has *)
(* owners: the Python members whose verification it is.  The specification   *)
(* enumerates selections, and defines from the complete translation what the *)
(* translation restricted to a selection must consist of.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.SELECTION_INPUT)
Progs == Data.progs         \* [members: seq of [n, c], items: [name -> item]]
Obs == Data.obs             \* [prog, sel: seq of names, items, said, exc]

Rng(q) == { q[i] : i \in DOMAIN q }
(*------------------------- selections to try ------------------------------*)
Names(p) == { m.n : m \in Rng(Progs[p].members) }
        \cup { m.c : m \in { x \in Rng(Progs[p].members) : x.c # "" } }
        \cup { m.c \o "." \o m.n : m \in { x \in Rng(Progs[p].members) : x.c # "" } }
Unknown == "no_such_member"
Selections(p) == { {a} : a \in Names(p) } \cup { {a, b} : a, b \in Names(p) } \cup { {a, Unknown} : a \in Names(p) } \cup {{Unknown}}

(*------------------------------ the rules ---------------------------------*)
Chosen(m, S) == m.n \in S \/ (m.c # "" /\ (m.c \in S \/ (m.c \o "." \o m.n) \in S))
ChosenMembers(p, S) == { m \in Rng(Progs[p].members) : Chosen(m, S) }
Full(o) == Progs[o.prog].items
\* an item is a check of a member when it has a body and is a method (functions keep theirs: callers need them)
IsCheck(it) == it.kind = "method" /\ it.body # ""
MustHave(o) == { x \in DOMAIN Full(o) : /\ Full(o)[x].kind \in {"method", "function", "predicate"}
                                        /\ Full(o)[x].body # "" /\ Full(o)[x].req
                                        /\ Full(o)[x].owners # <<>>
                                        /\ \A m \in Rng(Full(o)[x].owners) : Chosen(m, Rng(o.sel)) }
\* bodies in other modules are not looked at unless selected; there is nothing to compare them with
Foreign(o, x) == x \notin DOMAIN Full(o) \/ ~Full(o)[x].here

Missing(o) == { x \in MustHave(o) : x \notin DOMAIN o.items \/ o.items[x].body = "" }
Altered(o) == { x \in MustHave(o) \cap DOMAIN o.items : o.items[x].body # "" /\ o.items[x].body # Full(o)[x].body }
Unasked(o) == { x \in DOMAIN o.items : /\ IsCheck(o.items[x])
                   /\ o.items[x].owners # <<>>
                   /\ \A m \in Rng(o.items[x].owners) \cup Rng(o.items[x].also) : ~Chosen(m, Rng(o.sel)) }
Changed(o) == { x \in DOMAIN o.items \cap DOMAIN Full(o) : o.items[x].contract # Full(o)[x].contract }
Dangling(o) == { d \in UNION { Rng(o.items[x].deps) : x \in DOMAIN o.items } : d \notin DOMAIN o.items /\ d \in DOMAIN Full(o) }
Invented(o) == { x \in DOMAIN o.items \ DOMAIN Full(o) : o.items[x].here }
AnyBody(o) == { x \in DOMAIN o.items : IsCheck(o.items[x]) }

Clause(o) ==
    IF ChosenMembers(o.prog, Rng(o.sel)) = {} /\ ~o.named THEN
        (IF AnyBody(o) # {} THEN <<"UnknownVerifiesSomething", AnyBody(o)>>
         ELSE IF o.exc = "" /\ ~o.said THEN <<"UnknownNotReported", {}>> ELSE <<"ok", {}>>)
    ELSE IF o.exc # "" THEN <<"Rejected", {o.exc}>>
    ELSE IF Missing(o) # {} THEN <<"CheckMissing", Missing(o)>>
    ELSE IF Altered(o) # {} THEN <<"CheckAltered", Altered(o)>>
    ELSE IF Unasked(o) # {} THEN <<"BodyOfUnselected", Unasked(o)>>
    ELSE IF Changed(o) # {} THEN <<"ContractChanged", Changed(o)>>
    ELSE IF Dangling(o) # {} THEN <<"DependencyMissing", Dangling(o)>>
    ELSE IF Invented(o) # {} THEN <<"Invented", Invented(o)>>
    ELSE <<"ok", {}>>

(* model checking of the rules themselves: selecting more verifies more, and a selection of everything verifies everything *)
Want(p, S) == { x \in DOMAIN Progs[p].items : LET it == Progs[p].items[x] IN
                  it.body # "" /\ it.req /\ it.owners # <<>> /\ \A m \in Rng(it.owners) : Chosen(m, S) }
Laws(p) ==
          /\ \A a \in Names(p) : LET W == Want(p, {a}) IN \A b \in { x.n : x \in Rng(Progs[p].members) } : W \cup Want(p, {b}) \subseteq Want(p, {a, b})
          /\ Want(p, Names(p)) = { x \in DOMAIN Progs[p].items : LET it == Progs[p].items[x] IN it.body # "" /\ it.req /\ it.owners # <<>> }
          /\ Want(p, {Unknown}) = {}

VARIABLES i, ph
Init == /\ ph = "gen" /\ i \in DOMAIN Progs /\ Obs = <<>>
        /\ PrintT(<<"OUT", ToJson([prog |-> i, sels |-> Selections(i)])>>)
     \/ /\ ph = "chk" /\ i \in DOMAIN Obs
        /\ LET c == Clause(Obs[i]) IN PrintT(<<"OUT", ToJson([obs |-> i, v |-> c[1], what |-> c[2],
              want |-> Cardinality(MustHave(Obs[i])), bodies |-> Cardinality(AnyBody(Obs[i]))])>>)
Next == UNCHANGED <<i, ph>>
\* (checked with the programs alone)
Inv == ph = "gen" => Laws(i)
=============================================================================
