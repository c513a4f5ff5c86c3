--------------------------- MODULE HistoryDesign ---------------------------
(***************************************************************************)
(* All interleavings of evaluations of two objects: "eval" (parameters 1   *)
(* or 2) and "fail" (an evaluation that raises, e.g. a parameter is        *)
(* missing).  With Depth = 0 the histories are unbounded and only the      *)
(* states of the objects are kept; otherwise all histories of that length  *)
(* are produced, which are replayed in the code.                           *)
(***************************************************************************)
EXTENDS History, TLC, Json
CONSTANTS Depth
VARIABLES obj, st, hist, out
Objs == {[fam |-> f, cache |-> c] : f \in Smooth, c \in BOOLEAN}
        \cup {[fam |-> f, cache |-> FALSE] : f \in Splines \cup Stateless \cup {"InterpolatedPowerlaw"}}
\* one object of every kind beside itself; pairs of different kinds are combined by the driver
Rep == {[fam |-> "SinglePeakSmoothedMassDistribution", cache |-> TRUE], [fam |-> "SinglePeakSmoothedMassDistribution", cache |-> FALSE],
        [fam |-> "SplineSpinTiltIdentical", cache |-> FALSE], [fam |-> "PowerLawRedshift", cache |-> FALSE], [fam |-> "InterpolatedPowerlaw", cache |-> FALSE]}
I == {1, 2}
None == [i |-> 0, used |-> "-", d |-> "-"]
Init == /\ obj \in {<<a, b>> : a, b \in (IF Depth = 0 THEN Objs ELSE Rep)}
        /\ (Depth > 0 => \/ obj[1] = obj[2] \/ obj[2].fam = "SplineSpinTiltIdentical")
        /\ st = [i \in I |-> Fresh] /\ hist = <<>> /\ out = None
Record(e) == IF Depth = 0 THEN <<>> ELSE Append(hist, e)
Eval(i, d, p, n) ==
  /\ InScope(obj[i], st[i], d, n)
  /\ st' = [st EXCEPT ![i] = After(obj[i], st[i], d, n)]
  /\ out' = [i |-> i, used |-> Used(obj[i], st[i], d, n), d |-> d]
  /\ hist' = Record([op |-> "eval", i |-> i, d |-> d, p |-> p, n |-> n])
\* a failing evaluation may or may not leave the object bound to the dataset
Failing(i, d) ==
  /\ InScope(obj[i], st[i], d, st[i].nodes)
  /\ \/ st' = [st EXCEPT ![i] = After(obj[i], st[i], d, st[i].nodes)]
     \/ st' = st
  /\ out' = None
  /\ hist' = Record([op |-> "fail", i |-> i, d |-> d, p |-> 1, n |-> st[i].nodes])
Next == /\ (Depth = 0 \/ Len(hist) < Depth) /\ UNCHANGED obj
        /\ \E i \in I : \/ \E d \in Data, p \in 1..2 : Eval(i, d, p, st[i].nodes)
                        \/ \E d \in {"A", "C"} : st[i].nodes = 5 /\ IsSpline(obj[i]) /\ Eval(i, d, 1, 7)
                        \/ \E d \in {"A"} : Failing(i, d)
        /\ IF Depth > 0 /\ Len(hist') = Depth THEN PrintT("CASE|" \o ToJson([obj |-> obj, hist |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_<<obj, st, hist, out>>
\* every evaluation uses the set-up of its own dataset
HistoryFree == out.used = out.d
\* an object that is not evaluated keeps its state
Isolated == [][\A i \in I : (out'.i # 0 /\ out'.i # i) => st'[i] = st[i]]_<<obj, st, hist, out>>
NodesGrow == [][\A i \in I : st'[i].nodes >= st[i].nodes]_<<obj, st, hist, out>>
\* without caching every dataset is admitted at any time; models that keep nothing admit everything
Uncached == \A i \in I : (obj[i].fam \in Smooth /\ ~obj[i].cache) => \A d \in Data : InScope(obj[i], st[i], d, st[i].nodes)
Free == \A i \in I : obj[i].fam \in Stateless => \A d \in Data : InScope(obj[i], st[i], d, st[i].nodes)
Same == \A i \in I : st[i].bound # "none" => InScope(obj[i], st[i], st[i].bound, st[i].nodes)
=============================================================================
