---------------------------- MODULE EquivDesign ----------------------------
(***************************************************************************)
(* (a) k = "branch": the traced formulations equal the branching ones on a *)
(* lattice that contains the special values.  (b) k = "hist": histories of *)
(* evaluations of one request in all modes and forms, with the selection   *)
(* of the backend in between; the value seen is always the same.           *)
(***************************************************************************)
EXTENDS Equiv, Json, FiniteSets
CONSTANTS Depth, Exps, Widths
VARIABLES k, be, hist, seen, arg, sh
QExps == {"-4.5", "-2", "-1", "-0.999", "0", "1", "2.3"}
TExps == QExps \cup {"-12", "-1.0001", "-0.5", "7"}
QWidths == {"0", "0.001", "1", "5", "20"}
TWidths == QWidths \cup {"0.5", "3", "60"}
Shapes == {<<>>, <<0>>, <<5>>, <<2, 3>>}
Ranges == {<<"2", "100">>, <<"5", "8">>, <<"0.05", "1">>}
Points == {"0.04", "0.3", "1", "2", "3.5", "5", "5.2", "8", "9", "50", "100", "101"}
V == <<"3.2", "4", "50", "7.7", "20", "99">>
Init == \/ /\ k = "branch" /\ be = "-" /\ hist = <<>> /\ seen = {} /\ sh = <<>>
           /\ arg \in {[a |-> a, r |-> r, dm |-> d, m |-> m] : a \in Exps, r \in Ranges, d \in Widths, m \in Points}
        \/ /\ k = "hist" /\ be = "numpy" /\ hist = <<>> /\ seen = {} /\ sh \in Shapes /\ arg = "-2"
Evaluate(m, f) ==
  /\ be' = BackendOf(m)
  /\ hist' = Append(hist, [mode |-> m, form |-> f])
  /\ seen' = seen \cup {LET a == Read(f, Give(f, arg)) IN Result([i \in 1..Len(V) |-> PowerLaw(V[i], a, "100", "2")], sh)}
Next == \/ k = "hist" /\ Len(hist) < Depth /\ UNCHANGED <<k, arg, sh>>
           /\ \E m \in Modes, f \in Forms : Evaluate(m, f)
           /\ IF Len(hist') = Depth THEN PrintT("CASE|" \o ToJson([hist |-> hist', sh |-> sh])) ELSE TRUE
        \/ k = "branch" /\ be = "-" /\ be' = "done" /\ UNCHANGED <<k, hist, seen, arg, sh>>
Spec == Init /\ [][Next]_<<k, be, hist, seen, arg, sh>>
SingleValued == k = "hist" => Cardinality(seen) <= 1
ShapeOfDataset == k = "hist" => \A o \in seen : o.sh = sh /\ Len(o.v) = Size(sh)
Branch == k = "branch" /\ be = "done"
PowerLawBranch == Branch => Near(TPowerLawNorm(arg.a, arg.r[2], arg.r[1]), PowerLawNorm(arg.a, arg.r[2], arg.r[1]), "1e-20", "0")
\* the limit of the range itself is a point of measure zero where a taper of zero width is not defined
WindowBranch == (Branch /\ ~(Eq(arg.dm, Zero) /\ Eq(arg.m, arg.r[1]))) =>
  Near(TWindow(arg.m, arg.r[1], arg.r[2], arg.dm), Window(arg.m, arg.r[1], arg.r[2], arg.dm), "1e-12", "1e-400")
NormBranch == Branch => Eq(TNorm("0.37", arg.dm), IF Eq(arg.dm, Zero) THEN One ELSE "0.37")
=============================================================================
