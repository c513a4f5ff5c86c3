---------------------------- MODULE NamesDesign ----------------------------
(***************************************************************************)
(* Histories of two model objects: their names are read, they are          *)
(* evaluated with exactly the declared hyperparameters, with more, and     *)
(* with one missing.  What an object reports (rep) is what an              *)
(* implementation keeps in its state; no operation may change it.  The     *)
(* histories are replayed in the code.                                     *)
(***************************************************************************)
EXTENDS Names, Json, FiniteSets
CONSTANTS Depth
VARIABLES cfg, rep, hist
Fams == DOMAIN SmoothedFam \cup DOMAIN SplineBase \cup Redshifts \cup {"CosmoModel", "GaussianChiEffChiP"} \cup MassFunctions \cup SpinFunctions
Configs == {[fam |-> f, n |-> n, reg |-> r, cosmo |-> c] : f \in DOMAIN SplineBase, n \in {5, 7}, r \in BOOLEAN, c \in {"-"}}
  \cup {[fam |-> f, n |-> 0, reg |-> FALSE, cosmo |-> c] : f \in Redshifts \cup {"CosmoModel"}, c \in {"Planck15", "FlatLambdaCDM", "FlatwCDM"}}
  \cup {[fam |-> f, n |-> 0, reg |-> FALSE, cosmo |-> "-"] : f \in Fams \ (Redshifts \cup {"CosmoModel"} \cup DOMAIN SplineBase)}
Ops == {"read", "exact", "more", "missing", "direct"}
I == {1, 2}
\* pairs: an object with itself, and with one of every other family
Init == /\ hist = <<>>
        /\ cfg \in {<<a, b>> : a \in Configs, b \in {c \in Configs : c.fam = "SplineSpinTiltIdentical" \/ c.fam = "PowerLawRedshift"}}
                   \cup {<<a, a>> : a \in Configs}
        /\ rep = [i \in I |-> NamesOf(cfg[i])]
Next == /\ Len(hist) < Depth
        /\ \E i \in I, o \in Ops : hist' = Append(hist, [i |-> i, op |-> o]) /\ UNCHANGED <<cfg, rep>>
        /\ IF hist' = <<[i |-> 1, op |-> "read"]>>
           THEN PrintT("CASE|" \o ToJson([k |-> "pair", cfg |-> cfg, names |-> rep])) ELSE TRUE
        /\ IF Len(hist') = Depth /\ cfg[1] = cfg[2] /\ cfg[1].fam = "GaussianChiEffChiP"
           THEN PrintT("CASE|" \o ToJson([k |-> "hist", hist |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_<<cfg, rep, hist>>
\* the report is a function of the configuration alone
Function == \A i \in I : rep[i] = NamesOf(cfg[i])
NonEmpty == \A i \in I : rep[i] # {} \/ cfg[i].cosmo = "Planck15"
Distinct == \A i \in I : (cfg[i].fam \in DOMAIN SplineBase) => Cardinality(rep[i]) >= 2 * cfg[i].n
Regular == \A i \in I : (cfg[i].fam \in DOMAIN SplineBase /\ cfg[i].reg) => ("rms" \o SplineBase[cfg[i].fam]) \in rep[i]
FixedOut == \A i \in I : cfg[i].fam \in DOMAIN SmoothedFam => "gaussian_mass_maximum" \notin rep[i]
=============================================================================
