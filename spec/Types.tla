-------------------------------- MODULE Types --------------------------------
(* T06: the types of a Python program and what the translated program must say about them.

   A type is a class applied to types, or a union of types. The relations between types are defined here from the classes of the
   Python program alone (Super, Subtype, Extends, Unrelated, Basic, Arg): this is the intended meaning of the functions of the
   type domain. A translation is given by the axioms of its type domain. It is right if
     every instance of every axiom is true of the types of the program (nothing wrong is said, and the axioms have a model), and
     every fact about the types is pinned: there is an instance of an axiom that would be false without it (nothing is left out),
     and types of different classes are different. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

DATA == JsonDeserialize(IOEnv.TYPES_INPUT)
Programs == DATA.programs

T(f, a) == [f |-> f, a |-> a]
Object == T("object", <<>>)
NoneT == T("NoneType", <<>>)

Builtin == [c \in {"bool", "int", "IntEnum", "ConnectionRefusedError"} |->
              CASE c = "bool" -> "int" [] c = "int" -> "float" [] c = "IntEnum" -> "int" [] OTHER -> "Exception"]

Has(p, f) == f \in DOMAIN p.sup

UnionNames == {"union_type_1", "union_type_2", "union_type_3", "union_type_4"}
IsUnion(t) == t.f \in UnionNames

RECURSIVE Subst(_, _)
Subst(s, args) ==
  IF s.f = "?1" THEN args[1] ELSE IF s.f = "?2" THEN args[2]
  ELSE T(s.f, [i \in 1..Len(s.a) |-> Subst(s.a[i], args)])

HasSuper(t) == t.f # "object" /\ ~IsUnion(t)
Super(p, t) ==
  IF Has(p, t.f) THEN Subst(p.sup[t.f], t.a)
  ELSE IF t.f \in DOMAIN Builtin THEN T(Builtin[t.f], <<>>) ELSE Object

RECURSIVE Subtype(_, _, _)
Subtype(p, a, b) ==
  \/ a = b
  \/ b = Object
  \/ IF IsUnion(a) THEN \A i \in 1..Len(a.a): Subtype(p, a.a[i], b)
     ELSE IF IsUnion(b) THEN \E i \in 1..Len(b.a): Subtype(p, a, b.a[i])
     ELSE a # Object /\ Subtype(p, Super(p, a), b)

Extends(p, a, b) == HasSuper(a) /\ b = Super(p, a)
Unrelated(p, a, b) == HasSuper(a) /\ HasSuper(b) /\ a # b /\ Super(p, a) = Super(p, b)
Basic(t) == IF IsUnion(t) THEN T("union_basic", <<>>) ELSE IF t.a = <<>> THEN t ELSE T(t.f \o "_basic", <<>>)

(* the i-th type argument of class c in a type that is a subtype of an application of c *)
RECURSIVE Arg(_, _, _, _)
Arg(p, c, t, i) ==
  IF t.f = c THEN t.a[i + 1] ELSE IF IsUnion(t) THEN Arg(p, c, t.a[1], i)
  ELSE IF ~HasSuper(t) THEN T("no such argument", <<>>) ELSE Arg(p, c, Super(p, t), i)

(* references: null, and one object of every class *)
Null == [ref |-> NoneT]
TypeOf(r) == r.ref

(* -- values of the expressions of an axiom; the fact flip is taken to be the other way round -- *)
ArgFns(p) == {q.f \o "_arg" : q \in {p.gen[i] : i \in 1..Len(p.gen)}}
GenOf(p, n) == (CHOOSE q \in {p.gen[i] : i \in 1..Len(p.gen)}: q.f \o "_arg" = n).f
Other == T("another type", <<>>)

RECURSIVE Val(_, _, _, _), Facts(_, _, _)
App(p, n, v, flip) ==
  LET f == <<n, v>> IN
  CASE n = "issubtype" -> (IF v \in DOMAIN p.table THEN p.table[v] ELSE Subtype(p, v[1], v[2])) # (f = flip)
    [] n = "extends_" -> Extends(p, v[1], v[2]) # (f = flip)
    [] n = "isnotsubtype" -> Unrelated(p, v[1], v[2]) # (f = flip)
    [] n = "get_basic" -> IF f = flip THEN Other ELSE Basic(v[1])
    [] n = "typeof" -> IF f = flip THEN Other ELSE TypeOf(v[1])
    [] n \in ArgFns(p) -> IF f = flip THEN Other ELSE Arg(p, GenOf(p, n), v[1], v[2])
    [] OTHER -> T(n, v)
Val(p, e, env, flip) ==
  CASE e.k = "var" -> env[e.n]
    [] e.k = "int" -> e.i
    [] e.k = "true" -> TRUE
    [] e.k = "false" -> FALSE
    [] e.k = "null" -> Null
    [] e.k = "app" -> App(p, e.n, [i \in 1..Len(e.a) |-> Val(p, e.a[i], env, flip)], flip)
    [] e.k = "and" -> Val(p, e.a[1], env, flip) /\ Val(p, e.a[2], env, flip)
    [] e.k = "or" -> Val(p, e.a[1], env, flip) \/ Val(p, e.a[2], env, flip)
    [] e.k = "imp" -> Val(p, e.a[1], env, flip) => Val(p, e.a[2], env, flip)
    [] e.k = "not" -> ~Val(p, e.a[1], env, flip)
    [] e.k = "eq" -> Val(p, e.a[1], env, flip) = Val(p, e.a[2], env, flip)
    [] e.k = "ne" -> Val(p, e.a[1], env, flip) # Val(p, e.a[2], env, flip)

(* the facts that an instance of an axiom mentions *)
FactFns(p) == {"issubtype", "extends_", "isnotsubtype", "get_basic"} \cup ArgFns(p)
Facts(p, e, env) ==
  UNION {Facts(p, e.a[i], env) : i \in 1..Len(e.a)}
  \cup (IF e.k = "app" /\ e.n \in FactFns(p) THEN {<<e.n, [i \in 1..Len(e.a) |-> Val(p, e.a[i], env, <<>>)]>>} ELSE {})

Types(p) == {p.univ[i] : i \in 1..Len(p.univ)}
Refs(p) == {Null} \cup {[ref |-> t] : t \in {u \in Types(p): ~IsUnion(u) /\ u # NoneT}}
Range(p, ty) == IF ty = "Ref" THEN Refs(p) ELSE Types(p)

Envs(p, ax) ==
  CASE Len(ax.vars) = 0 -> {<<>>}
    [] Len(ax.vars) = 1 -> {(ax.vars[1].n :> t) : t \in Range(p, ax.vars[1].t)}
    [] Len(ax.vars) = 2 -> {(ax.vars[1].n :> t) @@ (ax.vars[2].n :> u) : t \in Range(p, ax.vars[1].t), u \in Range(p, ax.vars[2].t)}
    [] Len(ax.vars) = 3 -> {(ax.vars[1].n :> t) @@ (ax.vars[2].n :> u) @@ (ax.vars[3].n :> v) :
                              t \in Range(p, ax.vars[1].t), u \in Range(p, ax.vars[2].t), v \in Range(p, ax.vars[3].t)}
    [] OTHER -> {}

AxWrong(p, ax) == \E env \in Envs(p, ax): ~Val(p, ax.e, env, <<>>)
Pins(p, ax) == UNION {{f \in Facts(p, ax.e, env): ~Val(p, ax.e, env, f)} : env \in Envs(p, ax)}

(* -- the facts that have to be said -- *)
Needed(p) ==
  LET U == Types(p) N == {t \in U: ~IsUnion(t)} IN
     {<<"issubtype", <<c[1], c[2]>>>> : c \in {d \in U \X U: ~(IsUnion(d[1]) /\ IsUnion(d[2]))}}
     \cup {<<"extends_", <<a, Super(p, a)>>>> : a \in {u \in N: HasSuper(u)}}
     \cup {<<"isnotsubtype", <<c[1], c[2]>>>> : c \in {d \in N \X N: Unrelated(p, d[1], d[2])}}
     \cup {<<"get_basic", <<a>>>> : a \in U \ {Object}}
     \cup UNION {{<<g.f \o "_arg", <<t, i>>>> : i \in 0..(g.n - 1), t \in {u \in N: \E w \in N: w.f = g.f /\ Subtype(p, u, w)}} : g \in {p.gen[i] : i \in 1..Len(p.gen)}}

(* a type that cannot be told from another one *)
NotDistinct(p) ==
  {t \in Types(p): ~IsUnion(t) /\ ~\E i \in 1..Len(p.unique): p.unique[i] = Basic(t).f}

VARIABLE x
Init == x \in {<<i, 0>> : i \in 1..Len(Programs)}
Next == x[2] = 0 /\ x' = <<x[1], 1>>

Verdict ==
  LET q == Programs[x[1]]
      p == TLCEval([q EXCEPT !.table = TLCEval([v \in Types(q) \X Types(q) |-> Subtype(q, v[1], v[2])])])
      wrong == {i \in 1..Len(p.axioms): AxWrong(p, p.axioms[i])}
      left == Needed(p) \ UNION {Pins(p, p.axioms[i]) : i \in 1..Len(p.axioms)}
      same == NotDistinct(p)
  IN IF wrong # {} THEN [v |-> "WrongAxiom", d |-> p.axioms[CHOOSE i \in wrong: \A j \in wrong: i <= j].name]
     ELSE IF left # {} THEN [v |-> "FactLeftOpen", d |-> ToString(CHOOSE f \in left: TRUE)]
     ELSE IF same # {} THEN [v |-> "NotDistinct", d |-> ToString(CHOOSE t \in same: TRUE)]
     ELSE [v |-> "ok", d |-> ""]
Inv == x[2] = 1 => PrintT(<<"OUT", ToJson([prog |-> x[1], v |-> Verdict.v, d |-> Verdict.d, n |-> Cardinality(Needed(Programs[x[1]]))])>>)
=============================================================================
