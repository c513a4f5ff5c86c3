---------------------------- MODULE FrameDesign ----------------------------
(***************************************************************************)
(* The conversion processes the keys of the data in the order in which     *)
(* they come.  TLC explores every order: the result does not depend on it. *)
(* Complete orders are replayed in the code.                               *)
(***************************************************************************)
EXTENDS Frame, TLC, Json
CONSTANTS KeySets
VARIABLES keys, order, out, power
QKeySets == {{"luminosity_distance", "mass_1_detector", "mass_2_detector", "a_1"}, {"redshift", "mass_1_detector", "mass_ratio"},
             {"luminosity_distance", "mass_ratio", "detector_snr"}, {"redshift", "a_1"}, {"mass_1_detector", "a_1"},
             {"luminosity_distance"}, {"redshift", "mass_1_detector", "mass_2_detector", "chirp_mass_detector"},
             {"luminosity_distance", "lambda_detector", "mass_1_detector", "detector_snr"},
             {"luminosity_distance", "redshift", "mass_1_detector", "a_1"}}
TKeySets == QKeySets \cup {{"luminosity_distance", "mass_1_detector", "mass_2_detector", "chirp_mass_detector", "lambda_detector", "a_1"},
             {"redshift", "mass_1_detector", "mass_2_detector", "lambda_detector", "mass_ratio"}, {"mass_ratio"}, {"redshift"}}
Remaining == {k \in keys : \A i \in DOMAIN order : order[i] # k}
Start(ks) == IF Convertible(ks) THEN {"redshift"} ELSE {}
DInit == keys \in KeySets /\ order = <<>> /\ out = Start(keys) /\ power = 0
DNext == \E k \in Remaining :
  /\ order' = Append(order, k) /\ keys' = keys
  /\ out' = IF k = "luminosity_distance" THEN out ELSE out \cup {Source(k)}
  /\ power' = power + (IF k \in Detector THEN 1 ELSE 0)
  /\ (Remaining = {k}) => PrintT("CASE|" \o ToJson([order |-> order']))
DSpec == DInit /\ [][DNext]_<<keys, order, out, power>>
OrderIndependent == Remaining = {} => (out = OutKeys(keys) /\ power = NConverted(keys))
NothingLost == \A i \in DOMAIN order : order[i] # "luminosity_distance" => Source(order[i]) \in out
=============================================================================
