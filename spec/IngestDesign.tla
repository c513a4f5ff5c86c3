---------------------------- MODULE IngestDesign ----------------------------
(* The ingestion protocol, one event at a time: every table contributes the *)
(* same number of distinct rows; any draw is possible.  Enumerates the      *)
(* configurations (table lengths, maximum, prior column, kind of labels,    *)
(* random or equal column order) that are replayed in the code.             *)
EXTENDS Ingest, TLC, Json
CONSTANTS MaxEvents, Lens, Maxima, Labels
VARIABLES lens, max, prior, labels, drawn, k
vars == <<lens, max, prior, labels, drawn, k>>
Init == /\ lens \in UNION {[1..n -> Lens] : n \in 1..MaxEvents}
        /\ max \in Maxima /\ prior \in BOOLEAN /\ labels \in Labels
        /\ drawn = <<>> /\ k = Kept(lens, max)
DrawEvent ==
  LET i == Len(drawn) + 1 IN
  /\ i <= Len(lens)
  /\ \E d \in [1..k -> 1..lens[i]] : IsDraw(d, lens[i], k) /\ d[1] = Min({d[j] : j \in 1..k}) /\ drawn' = Append(drawn, d)
  /\ UNCHANGED <<lens, max, prior, labels, k>>
Announce == /\ drawn = <<>>
            /\ PrintT("CASE|" \o ToJson([lens |-> lens, max |-> max, prior |-> prior, labels |-> labels, k |-> k]))
Next == DrawEvent
Spec == Init /\ [][Next]_vars
Announced == drawn = <<>> => Announce
Equal == \A i \in DOMAIN drawn : Len(drawn[i]) = k
Distinct == \A i \in DOMAIN drawn : IsDraw(drawn[i], lens[i], k)
Bounded == /\ k >= 1 /\ (max # 0 => k <= max) /\ \A i \in DOMAIN lens : k <= lens[i]
Complete == (max = 0 \/ \A i \in DOMAIN lens : lens[i] <= max) =>
              \E i \in DOMAIN lens : k = lens[i]          \* the shortest table is used completely
=============================================================================
