----------------------------- MODULE HeapDesign -----------------------------
(***************************************************************************)
(* Histories of operations that share the caller's objects.  ver[o] counts *)
(* the modifications of object o.                                          *)
(***************************************************************************)
EXTENDS Heap, TLC, Json
CONSTANTS Depth
VARIABLES ver, hist
Init == ver = [o \in Objects |-> 0] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops :
             /\ ver' = [o \in Objects |-> IF o \in Writes(op) THEN ver[o] + 1 ELSE ver[o]]
             /\ hist' = Append(hist, op)
             /\ IF Len(hist') = Depth THEN PrintT("CASE|" \o ToJson([hist |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_<<ver, hist>>
Unmodified == \A o \in Objects \ {"sample"} : ver[o] = 0
OnlyExtra == ver["sample"] = Cardinality({i \in DOMAIN hist : hist[i] = "extra"})
WritesWhatItGets == \A op \in Ops : Writes(op) \subseteq Uses[op]
=============================================================================
