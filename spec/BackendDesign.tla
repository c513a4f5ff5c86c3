--------------------------- MODULE BackendDesign ---------------------------
(* Exhaustive check of Backend, and generation of histories: every history  *)
(* of Depth actions over the plugin sets in Sets is printed for replay.     *)
EXTENDS Backend, Json
CONSTANTS Depth, Sets
VARIABLES h, start
Act(a) == h' = Append(h, a)
DInit == Init /\ plug \in Sets /\ h = <<>> /\ start = [plug |-> plug, broken |-> broken, fn |-> fn]
\* env actions are not repeated in a row, and a history ends with a selection
Env == Len(h) > 0 /\ h[Len(h)].a # "select"
DNext ==
  /\ Len(h) < Depth /\ start' = start
  /\ \/ \E b \in Backends : Select(b) /\ Act([a |-> "select", b |-> b])
     \/ ~Env /\ Len(h) < Depth - 1 /\ \E p \in Faulty : Repair(p) /\ Act([a |-> "repair", b |-> p])
     \/ ~Env /\ Len(h) < Depth - 1 /\ Toggle /\ Act([a |-> "toggle", b |-> "lib"])
  /\ (Len(h') = Depth) =>
       PrintT("CASE|" \o ToJson([plug |-> start.plug, broken |-> start.broken, fn |-> start.fn, steps |-> h']))
DSpec == DInit /\ [][DNext]_<<vars, h, start>>
QuickSets == {{}, {"arrays", "late"}, {"funcs", "lib"}, {"lib", "arrays"}, {"logm", "funcs"}}
AllSets == {s \in SUBSET Plugin : Cardinality(s) <= 3}
=============================================================================
