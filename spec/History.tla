------------------------------ MODULE History ------------------------------
(***************************************************************************)
(* Evaluation of model objects one after another (C06).                    *)
(*                                                                         *)
(* An object is [fam, cache]: family and whether the smoothed mass model   *)
(* was built with caching.  Between evaluations it keeps bound, the        *)
(* dataset its interpolation was set up for ("none" before), and nodes,    *)
(* the number of spline nodes.  Datasets have a shape.  Step is the        *)
(* bookkeeping an implementation performs; used is the dataset whose       *)
(* set-up enters the value.  The promise is used = d in every evaluation   *)
(* that InScope admits, i.e. the value is the one of a fresh object.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences
Smooth == {"SinglePeakSmoothedMassDistribution", "MultiPeakSmoothedMassDistribution",
           "BrokenPowerLawSmoothedMassDistribution", "BrokenPowerLawPeakSmoothedMassDistribution"}
Splines == {"SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "Spline"}
Stateless == {"PowerLawRedshift", "MadauDickinsonRedshift", "GaussianChiEffChiP", "CosmoModel"}
Shapes == [A |-> <<6>>, B |-> <<6>>, C |-> <<4>>, D |-> <<2, 5>>]
Data == DOMAIN Shapes
\* shapes of which one can be broadcast to the other
Dim(q, i) == IF i > Len(q) THEN 1 ELSE q[Len(q) + 1 - i]
Combinable(p, q) ==
  \A i \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) : Dim(p, i) = Dim(q, i) \/ Dim(p, i) = 1 \/ Dim(q, i) = 1
Fresh == [bound |-> "none", nodes |-> 5]
IsSpline(o) == o.fam \in Splines \cup {"InterpolatedPowerlaw"}
\* evaluations covered by the promise
InScope(o, st, d, n) ==
  /\ n >= st.nodes
  /\ (n > st.nodes) => o.fam \in Splines      \* only these take more nodes at evaluation
  /\ CASE o.fam \in Stateless -> TRUE
       [] o.fam \in Smooth -> IF ~o.cache \/ st.bound \in {"none", d} THEN TRUE ELSE ~Combinable(Shapes[st.bound], Shapes[d])
       [] OTHER -> st.bound \in {"none", d} \/ n > st.nodes
\* dataset whose set-up is used, and the state afterwards
Used(o, st, d, n) ==
  CASE o.fam \in Stateless -> d
    [] o.fam \in Smooth -> IF ~o.cache \/ st.bound = "none" THEN d
                           ELSE IF Combinable(Shapes[st.bound], Shapes[d]) THEN st.bound ELSE d
    [] OTHER -> IF n > st.nodes \/ st.bound = "none" THEN d ELSE st.bound
After(o, st, d, n) == [bound |-> IF o.fam \in Stateless THEN "none" ELSE Used(o, st, d, n), nodes |-> n]
=============================================================================
