--------------------------- MODULE SelectionDesign ---------------------------
(***************************************************************************)
(* Design of the injection estimate over a lattice of weights, totals and  *)
(* event numbers around the convergence threshold (C17), and the axis      *)
(* configurations of grids (C18).                                          *)
(***************************************************************************)
EXTENDS Likelihood, TLC, Json, FiniteSets
CONSTANTS Vals, MaxLen, Totals, Events
VARIABLES w, total, n, done
Order == <<"0", "0.5", "1", "3", "1000">>
Pos(x) == CHOOSE i \in 1..5 : Order[i] = x
Seqs == UNION {{q \in [1..k -> Vals] : \A i \in 1..(k-1) : Pos(q[i]) <= Pos(q[i+1])} : k \in 1..MaxLen}
DInit == w \in Seqs /\ total \in Totals /\ n \in Events /\ done = FALSE
         /\ (total = "default" \/ ToString(Len(w)) \preceq total)    \* at least the found ones were generated
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, total, n>>
         /\ PrintT("CASE|" \o ToJson([w |-> w, total |-> IF total = "default" THEN ToString(Len(w)) ELSE total,
                                      given |-> total # "default", n |-> n]))
DSpec == DInit /\ [][DNext]_<<w, total, n, done>>
T == IF total = "default" THEN ToString(Len(w)) ELSE total
Big == T # "default" /\ ToString(Len(w)) \preceq T
\* the estimate is linear in the weights, and the variance quadratic
Scaling == done => /\ Near(Efficiency(Map(LAMBDA x : "3" \otimes x, w), T), "3" \otimes Efficiency(w, T), "1e-30", "1e-30")
                   /\ Near(EfficiencyVar(Map(LAMBDA x : "3" \otimes x, w), T), "9" \otimes EfficiencyVar(w, T), "1e-28", "1e-28")
\* with at least as many generated as found, the variance is not negative
VarianceOk == (done /\ Big) => Neg("1e-30") \preceq EfficiencyVar(w, T)
\* missed injections are injections of weight zero
MissedAreZero == (done /\ total = "default") =>
   /\ Efficiency(w, ToString(Len(w) + 2)) = Efficiency(w \o <<"0", "0">>, ToString(Len(w) + 2))
   /\ EfficiencyVar(w, ToString(Len(w) + 2)) = EfficiencyVar(w \o <<"0", "0">>, ToString(Len(w) + 2))
\* more events need more injections
Monotone == (done /\ n # "inf" /\ Converged(Efficiency(w, T), EfficiencyVar(w, T), n)) =>
   \A m \in Events : (m # "inf" /\ m \preceq n /\ Big) => Converged(Efficiency(w, T), EfficiencyVar(w, T), m)
NeverForUnknown == done => ~Converged(Efficiency(w, T), EfficiencyVar(w, T), "inf")
=============================================================================
