----------------------------- MODULE WellFormed -----------------------------
(* T08: what makes the program given to Viper a closed, well-typed program.

   DATA.members: every distinct member, with the declarations it refers to (sig);
   DATA.programs: the names declared by every program, and what its Python elements are called.
   A node is [k kind, t the type it claims, n name, c fixed children, a list of children,
   d declared variables, m type arguments].  The claimed types of the leaves are checked against the
   declarations and that of every other node against those of its children, so every claim is justified. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

DATA == JsonDeserialize(IOEnv.WELLFORMED_INPUT)

I == <<"Int">>
B == <<"Bool">>
P == <<"Perm">>
R == <<"Ref">>

Rule(cs, t) == [c |-> cs, t |-> t]
(* kinds whose children and result have fixed types *)
Fixed ==
  [k \in {"Add", "Sub", "Mul", "Div", "Mod"} |-> Rule(<<I, I>>, I)]
  @@ [k \in {"LtCmp", "LeCmp", "GtCmp", "GeCmp"} |-> Rule(<<I, I>>, B)]
  @@ [k \in {"And", "Or", "Implies", "InhaleExhaleExp"} |-> Rule(<<B, B>>, B)]
  @@ [k \in {"PermLtCmp", "PermLeCmp", "PermGtCmp", "PermGeCmp"} |-> Rule(<<P, P>>, B)]
  @@ [k \in {"PermAdd", "PermSub", "PermMul", "PermPermDiv"} |-> Rule(<<P, P>>, P)]
  @@ [k \in {"FullPerm", "NoPerm", "WildcardPerm", "EpsilonPerm"} |-> Rule(<<>>, P)]
  @@ [k \in {"TrueLit", "FalseLit"} |-> Rule(<<>>, B)]
  @@ [IntPermMul |-> Rule(<<I, P>>, P), PermDiv |-> Rule(<<P, I>>, P), FractionalPerm |-> Rule(<<I, I>>, P),
      PermMinus |-> Rule(<<P>>, P), Not |-> Rule(<<B>>, B), Minus |-> Rule(<<I>>, I),
      IntLit |-> Rule(<<>>, I), NullLit |-> Rule(<<>>, R), RangeSeq |-> Rule(<<I, I>>, <<"Seq", I>>)]

(* statements whose children have fixed types *)
Checks == {"Inhale", "Exhale", "Assert", "Assume", "Refute"}
(* positions in which a child may hold permissions *)
MayAcc(k, i, pure) ==
  CASE k \in {"And", "InhaleExhaleExp"} -> ~pure
    [] k = "Implies" -> i = 2 /\ ~pure
    [] k = "CondExp" -> i > 1 /\ ~pure
    [] k \in {"Unfolding", "Asserting"} -> i = 1 \/ ~pure
    [] k = "Let" -> i = 2 /\ ~pure
    [] k \in {"Forall", "Exists"} -> ~pure
    [] k \in Checks \cup {"Fold", "Unfold"} -> TRUE
    [] OTHER -> FALSE

Bad(c, s) == {[clause |-> c, what |-> s]}
When(b, c, s) == IF b THEN Bad(c, s) ELSE {}
Is(s) == "'" \o s \o "'"

RECURSIVE Subst(_, _)
Subst(t, m) ==
  CASE t[1] = "Var" -> IF \E i \in 1..Len(m): m[i][1] = t[2] THEN m[CHOOSE i \in 1..Len(m): m[i][1] = t[2]][2] ELSE t
    [] t[1] = "Dom" -> <<"Dom", t[2], [i \in 1..Len(t[3]) |-> Subst(t[3][i], m)]>>
    [] t[1] \in {"Seq", "Set", "Multiset"} -> <<t[1], Subst(t[2], m)>>
    [] t[1] = "Map" -> <<"Map", Subst(t[2], m), Subst(t[3], m)>>
    [] OTHER -> t

RECURSIVE TypeErr(_, _)
TypeErr(t, w) ==
  CASE t[1] = "Dom" ->
         (IF t[2] \notin DOMAIN w.sig.doms THEN Bad("UnknownType", t[2])
          ELSE When(w.sig.doms[t[2]] # Len(t[3]), "TypeArity", t[2]))
         \cup UNION {TypeErr(t[3][i], w) : i \in 1..Len(t[3])}
    [] t[1] \in {"Seq", "Set", "Multiset"} -> TypeErr(t[2], w)
    [] t[1] = "Map" -> TypeErr(t[2], w) \cup TypeErr(t[3], w)
    [] t[1] = "Var" -> When(t[2] \notin {w.tv[i] : i \in 1..Len(w.tv)}, "UnknownType", t[2])
    [] t[1] \in {"Int", "Bool", "Ref", "Perm", "Wand"} -> {}
    [] OTHER -> Bad("UnknownType", t[1])

Extend(E, d) == [x \in {d[i][1] : i \in 1..Len(d)} |-> d[CHOOSE i \in 1..Len(d): d[i][1] = x][2]] @@ E
DeclErr(E, d, w) ==
  UNION {TypeErr(d[i][2], w)
         \cup When(d[i][1] \in DOMAIN E \/ \E j \in 1..(i - 1): d[j][1] = d[i][1], "DuplicateName", "variable " \o d[i][1]) : i \in 1..Len(d)}

Args(n, want, what) ==
  IF Len(n.a) # Len(want) THEN Bad("Arity", what)
  ELSE UNION {When(n.a[i].t # want[i], "Type", "argument of " \o what) : i \in 1..Len(want)}

SetLike == {"Set", "Multiset"}
Coll(k) == IF k \in {"SeqIndex", "SeqTake", "SeqDrop", "SeqUpdate", "SeqLength", "SeqContains"} THEN {"Seq"} ELSE SetLike

(* what is wrong with node n itself *)
Local(n, E, w, pure) ==
  LET k == n.k
      T(i) == n.c[i].t
      same(b) == When(~b, "Type", k)
  IN
  CASE k \in DOMAIN Fixed ->
         When(n.t # Fixed[k].t \/ Len(n.c) # Len(Fixed[k].c) \/ \E i \in 1..Len(n.c): T(i) # Fixed[k].c[i], "Type", k)
    [] k \in {"EqCmp", "NeCmp"} -> same(T(1) = T(2) /\ n.t = B)
    [] k = "CondExp" -> same(T(1) = B /\ T(2) = T(3) /\ n.t = T(2))
    [] k = "LocalVar" ->
         IF n.n \notin DOMAIN E THEN Bad("UnknownVariable", n.n) ELSE When(E[n.n] # n.t, "Type", "variable " \o n.n)
    [] k = "Result" -> When(w.pos # "fpost", "ResultOutsidePost", k) \cup When(w.pos = "fpost" /\ w.res # n.t, "Type", k)
    [] k = "FieldAccess" ->
         IF n.n \notin DOMAIN w.sig.fields THEN Bad("UnknownField", n.n)
         ELSE When(w.sig.fields[n.n] # n.t \/ T(1) # R, "Type", "field " \o n.n)
    [] k = "PredicateAccess" ->
         IF n.n \notin DOMAIN w.sig.preds THEN Bad("UnknownPredicate", n.n) ELSE Args(n, w.sig.preds[n.n], "predicate " \o n.n)
    [] k \in {"FieldAccessPredicate", "PredicateAccessPredicate"} ->
         When(pure, "ImpureExpression", k)
         \cup When(w.pos = "fpost", "AccInFunctionPost", k)
         \cup When(n.c[1].k # (IF k = "FieldAccessPredicate" THEN "FieldAccess" ELSE "PredicateAccess"), "Type", k)
         \cup same(\A i \in 2..Len(n.c): T(i) = P)
    [] k = "CurrentPerm" -> When(n.c[1].k \notin {"FieldAccess", "PredicateAccess"}, "Type", k)
    [] k = "FuncApp" ->
         IF n.n \notin DOMAIN w.sig.funcs THEN Bad("UnknownFunction", n.n)
         ELSE Args(n, w.sig.funcs[n.n].a, "function " \o n.n) \cup When(n.t # w.sig.funcs[n.n].t, "Type", "result of " \o n.n)
    [] k = "DomainFuncApp" ->
         IF n.n \notin DOMAIN w.sig.dfuncs THEN Bad("UnknownFunction", n.n)
         ELSE LET f == w.sig.dfuncs[n.n]
              IN Args(n, [i \in 1..Len(f.a) |-> Subst(f.a[i], n.m)], "domain function " \o n.n)
                 \cup When(n.t # Subst(f.t, n.m), "Type", "result of " \o n.n)
                 \cup UNION {TypeErr(n.m[i][2], w) : i \in 1..Len(n.m)}
    [] k = "Old" -> When(w.pos \in {"pre", "fpre", "pred", "axiom", "fbody", "fpost"}, "OldInBadPosition", w.pos) \cup same(n.t = T(1))
    [] k = "LabelledOld" ->
         When(w.pos \notin {"stmt", "inv"}, "OldInBadPosition", n.n)
         \cup When(w.pos \in {"stmt", "inv"} /\ n.n \notin w.labels, "UnknownLabel", n.n) \cup same(n.t = T(1))
    [] k \in {"Unfolding", "Asserting"} ->
         same(T(1) = B /\ n.t = T(2)) \cup When(k = "Unfolding" /\ n.c[1].k # "PredicateAccessPredicate", "Type", k)
    [] k = "Let" -> DeclErr(E, n.d, w) \cup same(n.d[1][2] = T(1) /\ n.t = T(2))
    [] k \in {"Forall", "Exists"} -> DeclErr(E, n.d, w) \cup same(T(1) = B) \cup When(n.d = <<>>, "NoVariables", k)
    [] k = "ForPerm" -> DeclErr(E, n.d, w) \cup same(T(2) = B)
    [] k \in {"EmptySeq", "EmptySet", "EmptyMultiset", "EmptyMap"} -> TypeErr(n.t, w)
    [] k \in {"ExplicitSeq", "ExplicitSet", "ExplicitMultiset"} ->
         IF n.a = <<>> THEN Bad("EmptyExplicit", k) ELSE same(\A i \in 1..Len(n.a): n.a[i].t = n.t[2])
    [] k = "ExplicitMap" -> {}
    [] k = "Maplet" -> {}
    [] k = "SeqAppend" -> same(T(1) = T(2) /\ T(1)[1] = "Seq" /\ n.t = T(1))
    [] k \in {"AnySetUnion", "AnySetIntersection", "AnySetMinus"} -> same(T(1) = T(2) /\ T(1)[1] \in SetLike /\ n.t = T(1))
    [] k = "AnySetSubset" -> same(T(1) = T(2) /\ T(1)[1] \in SetLike)
    [] k \in {"SeqContains", "AnySetContains"} ->
         IF T(2)[1] \notin Coll(k) THEN Bad("Type", k) ELSE same(T(2)[2] = T(1) /\ n.t = (IF T(2)[1] = "Multiset" THEN I ELSE B))
    [] k \in {"SeqLength", "AnySetCardinality"} -> same(T(1)[1] \in Coll(k))
    [] k = "SeqIndex" -> IF T(1)[1] # "Seq" THEN Bad("Type", k) ELSE same(T(2) = I /\ n.t = T(1)[2])
    [] k \in {"SeqTake", "SeqDrop"} -> IF T(1)[1] # "Seq" THEN Bad("Type", k) ELSE same(T(2) = I /\ n.t = T(1))
    [] k = "SeqUpdate" -> IF T(1)[1] # "Seq" THEN Bad("Type", k) ELSE same(T(2) = I /\ T(3) = T(1)[2] /\ n.t = T(1))
    [] k = "MapContains" -> IF T(2)[1] # "Map" THEN Bad("Type", k) ELSE same(T(1) = T(2)[2])
    [] k \in {"MapLookup", "MapUpdate", "MapCardinality", "MapDomain", "MapRange"} ->
         IF T(1)[1] # "Map" THEN Bad("Type", k)
         ELSE same((k \in {"MapLookup", "MapUpdate"} => T(2) = T(1)[2]) /\ (k = "MapUpdate" => T(3) = T(1)[3]))
    [] k = "PredicateInstance" ->
         IF n.n \notin DOMAIN w.sig.preds THEN Bad("UnknownPredicate", n.n) ELSE Args(n, w.sig.preds[n.n], "predicate " \o n.n)
    [] k \in {"DecreasesTuple", "DecreasesWildcard", "DecreasesStar", "SIFLowExp", "SIFLowEventExp", "SIFLowExitExp", "SIFTerminatesExp"} -> {}
    (* statements *)
    [] k = "Seqn" -> DeclErr(E, n.d, w)
    [] k = "LocalVarAssign" ->
         When(n.c[1].k # "LocalVar", "Assign", k) \cup When(n.c[1].n \in w.params, "AssignToParam", n.c[1].n) \cup same(T(1) = T(2))
    [] k = "FieldAssign" -> When(n.c[1].k # "FieldAccess", "Assign", k) \cup same(T(1) = T(2))
    [] k \in Checks -> same(T(1) = B)
    [] k \in {"Fold", "Unfold"} -> When(n.c[1].k # "PredicateAccessPredicate", "FoldTarget", k)
    [] k = "MethodCall" ->
         IF n.n \notin DOMAIN w.sig.meths THEN Bad("UnknownMethod", n.n)
         ELSE LET f == w.sig.meths[n.n] IN
              Args(n, f.a, "method " \o n.n)
              \cup (IF Len(n.c) # Len(f.r) THEN Bad("Arity", "targets of " \o n.n)
                    ELSE UNION {When(n.c[i].k # "LocalVar", "Assign", "target of " \o n.n)
                                \cup When(n.c[i].k = "LocalVar" /\ n.c[i].n \in w.params, "AssignToParam", n.c[i].n)
                                \cup When(T(i) # f.r[i], "Type", "target of " \o n.n)
                                \cup When(\E j \in 1..(i - 1): n.c[j].n = n.c[i].n, "DuplicateTargets", n.n) : i \in 1..Len(n.c)})
    [] k = "NewStmt" -> same(T(1) = R) \cup UNION {When(n.m[i] \notin DOMAIN w.sig.fields, "UnknownField", n.m[i]) : i \in 1..Len(n.m)}
    [] k = "Label" -> {}
    [] k = "Goto" -> When(n.n \notin w.labels, "UnknownLabel", n.n)
    [] k \in {"If", "While"} -> same(T(1) = B)
    [] k \in {"SIFReturnStmt", "SIFBreakStmt", "SIFContinueStmt", "SIFRaiseStmt", "SIFExceptionHandler", "SIFWhileElse",
              "SIFTryCatchStmt", "SIFDeclassifyStmt", "SIFInlinedCallStmt", "SIFAssertNoException"} -> {}
    [] OTHER -> Bad("UnknownKind", k)

Stmts == {"If", "While", "Seqn"}
RECURSIVE Err(_, _, _, _)
Err(n, E, w, pure) ==
  LET E2 == IF n.d = <<>> THEN E ELSE Extend(E, n.d)
  IN Local(n, E, w, pure)
     \cup UNION {Err(n.c[i], IF n.k = "Let" /\ i = 1 THEN E ELSE E2, w, ~MayAcc(n.k, i, pure)) : i \in 1..Len(n.c)}
     \cup UNION {Err(n.a[i], E2, IF n.k = "While" THEN [w EXCEPT !.pos = "inv"] ELSE w, n.k # "While") : i \in 1..Len(n.a)}
     \cup UNION {Err(n.s[i], E2, w, TRUE) : i \in 1..Len(n.s)}

RECURSIVE Labels(_)
Labels(n) ==
  LET RECURSIVE Cat(_)
      Cat(i) == IF i > Len(n.s) THEN <<>> ELSE Labels(n.s[i]) \o Cat(i + 1)
  IN (IF n.k = "Label" THEN <<n.n>> ELSE <<>>) \o Cat(1)
Names(q) == {q[i] : i \in 1..Len(q)}

NameSet(d) == {d[i][1] : i \in 1..Len(d)}
Member(m) ==
  LET lab == IF m.kind = "method" /\ m.body # <<>> THEN Labels(m.body[1]) ELSE <<>>
      W(pos) == [pos |-> pos, res |-> m.t, sig |-> m.sig, tv |-> m.tv, labels |-> Names(lab), params |-> NameSet(m.args)]
      none == [x \in {} |-> R]
      A == Extend(none, m.args)
      AR == Extend(A, m.rets)
      Exps(q, E, pos, pure) ==
        UNION {Err(q[i], E, W(pos), pure) \cup When(q[i].t # B, "Type", pos) : i \in 1..Len(q)}
      fun == m.kind = "function"
  IN DeclErr(none, m.args, W("pre")) \cup DeclErr(A, m.rets, W("pre")) \cup (IF m.t = <<>> THEN {} ELSE TypeErr(m.t, W("pre")))
     \cup Exps(m.pres, A, IF fun THEN "fpre" ELSE "pre", FALSE)
     \cup Exps(m.posts, IF fun THEN A ELSE AR, IF fun THEN "fpost" ELSE "post", FALSE)
     \cup Exps(m.axioms, none, "axiom", TRUE)
     \cup UNION {IF m.kind = "method" THEN Err(m.body[i], AR, W("stmt"), TRUE)
                 ELSE Err(m.body[i], A, W(IF fun THEN "fbody" ELSE "pred"), fun)
                      \cup When(m.body[i].t # (IF fun THEN m.t ELSE B), "Type", "body") : i \in 1..Len(m.body)}
     \cup When(Cardinality(Names(lab)) # Len(lab), "DuplicateLabel", m.name)

(* every name is declared once, and different Python elements have different names *)
Program(p) ==
  UNION {When(\E j \in 1..(i - 1): p.names[j] = p.names[i], "DuplicateName", p.names[i]) : i \in 1..Len(p.names)}
  \cup UNION {When(\E j \in 1..(i - 1): p.elems[j].scope = p.elems[i].scope /\ p.elems[j].name = p.elems[i].name,
                   "SharedName", p.elems[i].name) : i \in 1..Len(p.elems)}

VARIABLE x
Init == x \in {<<"m", i>> : i \in 1..Len(DATA.members)} \cup {<<"p", i>> : i \in 1..Len(DATA.programs)}
Next == FALSE /\ x' = x
Verdict == IF x[1] = "m" THEN Member(DATA.members[x[2]]) ELSE Program(DATA.programs[x[2]])
Inv ==
  LET v == Verdict IN
  PrintT(<<"OUT", ToJson([kind |-> x[1], i |-> x[2], v |-> IF v = {} THEN "ok" ELSE (CHOOSE e \in v: TRUE).clause,
                          what |-> IF v = {} THEN "" ELSE (CHOOSE e \in v: TRUE).what, n |-> Cardinality(v)])>>)
=============================================================================
