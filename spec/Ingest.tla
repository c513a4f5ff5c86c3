------------------------------- MODULE Ingest -------------------------------
(***************************************************************************)
(* Ingestion of posterior tables (C14) and predictive resampling (C15).    *)
(* A table is a sequence of rows; a drawn event is a sequence of row       *)
(* numbers.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* number of samples kept per event; max = 0 stands for no maximum
Kept(lens, max) == Min({lens[i] : i \in DOMAIN lens} \cup (IF max = 0 THEN {} ELSE {max}))
\* draw of k of n rows without replacement
IsDraw(d, n, k) == /\ Len(d) = k /\ \A j \in DOMAIN d : d[j] \in 1..n
                   /\ \A i, j \in DOMAIN d : i # j => d[i] # d[j]
\* resampling with replacement among rows of non-zero weight
IsResample(d, w, k) == Len(d) = k /\ \A j \in DOMAIN d : d[j] \in DOMAIN w /\ w[d[j]] # 0
=============================================================================
