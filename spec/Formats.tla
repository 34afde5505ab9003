------------------------------ MODULE Formats ------------------------------
(* E02: a failing verification is a growing set of errors found at checks of *)
(* the program; a report renders it in every format.  The specification      *)
(* fixes the conventions of the formats (what is 0-based and what 1-based)   *)
(* and requires that all of them show the same errors, each once.            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Pool,         \* number of checks of the program an error can be at
          MaxErr,       \* errors in one failure
          Docs          \* programs: failing ones, and ones the translator rejects

Rejected == {"typeerr", "typeerr2", "invalid", "invalid2", "unsupported", "syntax"}
Scenarios == { [doc |-> d] : d \in Docs }
Start(c) == [doc |-> c.doc, errs |-> <<>>, reports |-> 0]

Events(st) ==
  (IF st.doc \in Rejected \/ Len(st.errs) >= MaxErr THEN {}
   ELSE { [a |-> "add", at |-> i, vague |-> v] : i \in 1..Pool, v \in BOOLEAN })
  \cup (IF (st.doc \in Rejected /\ st.reports > 0) \/ (st.doc \notin Rejected /\ st.errs = <<>>) THEN {}
        ELSE { [a |-> "report", at |-> 0, vague |-> FALSE] })
Effect(st, e) == IF e.a = "add" THEN [st EXCEPT !.errs = Append(@, [at |-> e.at, vague |-> e.vague])]
                 ELSE [st EXCEPT !.reports = @ + 1]

(* one entry, as the 1-based line and 0-based column convention of Nagini *)
Canon(fmt, r) ==
  CASE fmt = "ide" -> [r EXCEPT !.c1 = @ - 1, !.c2 = @ - 1]
    [] fmt = "lsp" -> [r EXCEPT !.l1 = @ + 1, !.l2 = @ + 1]
    [] OTHER       -> r
Rng(q) == { q[i] : i \in DOMAIN q }
All(o, fmt) == { Canon(fmt, r) : r \in Rng(o.shown[fmt]) }
\* the text format of a rejected program and of a position without end shows the start only
NoEnd(S) == { [r EXCEPT !.l2 = 0, !.c2 = 0] : r \in S }
NoReason(S) == { [file |-> r.file, l1 |-> r.l1, c1 |-> r.c1, l2 |-> r.l2, c2 |-> r.c2, msg |-> r.msg] : r \in S }
Formats == {"struct", "ide", "lsp", "text"}

(* what the backend found, with what identifies an error *)
Place(S) == { <<r.file, r.l1, r.c1, r.l2, r.c2>> : r \in S }
KindsAt(o, p) == Cardinality({ g.kind : g \in { x \in Rng(o.given) : <<x.file, x.l1, x.c1, x.l2, x.c2>> = p } })
ShownAt(o, p) == Cardinality({ r \in All(o, "struct") : <<r.file, r.l1, r.c1, r.l2, r.c2>> = p })
Ranges(o) == \A r \in All(o, "struct") : r.l1 >= 1 /\ r.c1 >= 0 /\ (r.l2 > r.l1 \/ (r.l2 = r.l1 /\ r.c2 >= r.c1))

Clause(st, e, s2, o) ==
  IF e.a = "add" THEN "ok"
  ELSE IF o.exc # "" THEN "ReportFails"
  ELSE IF \E f \in Formats : o.success[f] THEN "FalseSuccess"
  ELSE IF Cardinality(All(o, "struct")) < Len(o.shown.struct) THEN "ShownTwice"
  ELSE IF NoReason(All(o, "ide")) # NoReason(All(o, "struct")) THEN "IdeFormatDiffers"
  ELSE IF Cardinality(All(o, "ide")) < Len(o.shown.ide) THEN "IdeFormatShownTwice"
  ELSE IF All(o, "lsp") # All(o, "struct") THEN "EditorDiffers"
  ELSE IF Len(o.shown.lsp) # Len(o.shown.struct) THEN "EditorShownTwice"
  ELSE IF NoEnd(NoReason(All(o, "text"))) # NoEnd(NoReason(All(o, "struct"))) THEN "TextDiffers"
  ELSE IF o.textends /\ NoReason(All(o, "text")) # NoReason(All(o, "struct")) THEN "TextEndDiffers"
  ELSE IF Cardinality(Rng(o.shown.text)) < Len(o.shown.text) THEN "TextShownTwice"
  ELSE IF ~Ranges(o) THEN "BadRange"
  ELSE IF st.doc \in Rejected THEN (IF o.shown.struct = <<>> THEN "NothingShown" ELSE "ok")
  ELSE IF ~(Place(Rng(o.given)) \subseteq Place(All(o, "struct"))) THEN "Merged"
  ELSE IF Place(All(o, "struct")) # Place(Rng(o.given)) THEN "PositionInvented"
  ELSE IF \E p \in Place(Rng(o.given)) : KindsAt(o, p) > ShownAt(o, p) THEN "KindsMerged"
  ELSE IF Rng(o.branches.text) # Rng(o.branches.struct) THEN "BranchConditionsDiffer"
  ELSE IF Rng(o.vias.text) # Rng(o.vias.struct) THEN "ViasDiffer"
  ELSE "ok"

Inv(st) == Len(st.errs) <= MaxErr
=============================================================================
