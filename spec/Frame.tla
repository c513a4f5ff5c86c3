------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* Detector to source frame (C10).                                         *)
(***************************************************************************)
EXTENDS Redshift, FiniteSets
Detector == {"mass_1_detector", "mass_2_detector", "chirp_mass_detector", "lambda_detector"}
Source(k) == CASE k = "mass_1_detector" -> "mass_1" [] k = "mass_2_detector" -> "mass_2"
               [] k = "chirp_mass_detector" -> "chirp_mass" [] k = "lambda_detector" -> "lambda" [] OTHER -> k
OutKeys(keys) == {Source(k) : k \in keys \ {"luminosity_distance"}} \cup
                 (IF keys \cap {"luminosity_distance", "redshift"} # {} THEN {"redshift"} ELSE {})
NConverted(keys) == Cardinality(keys \cap Detector)
Convertible(keys) == keys \cap {"luminosity_distance", "redshift"} # {}
Jacobian(c, z, nconv, dist) ==
  LET RECURSIVE Pw(_)
      Pw(n) == IF n = 0 THEN One ELSE (One \oplus z) \otimes Pw(n - 1)
  IN Pw(nconv) \otimes (IF dist THEN DDLDz(c, z) ELSE One)
=============================================================================
