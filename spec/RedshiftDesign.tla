--------------------------- MODULE RedshiftDesign ---------------------------
(* Design check of the cosmology and redshift models; enumeration of the     *)
(* requests.                                                                 *)
EXTENDS Redshift, TLC, Json
CONSTANTS Cosmos, ZMax, PowerLaws, Madaus
VARIABLES fn, cosmo, zmax, p, done
QCosmos == {"Planck15", "WMAP9", "FlatLambdaCDM", "FlatwCDM"}
TCosmos == NamedCosmologies \cup {"FlatLambdaCDM", "FlatwCDM"}
QZ == {"2.3", "1", "5"}
TZ == {"2.3", "1", "0.3", "5", "10"}
QPL == {"0", "2.7", "-3.5"}
TPL == {"0", "1", "2.7", "-3.5", "8"}
QMD == {<<"2.7", "5.6", "1.9">>, <<"0", "0", "1">>}
TMD == {<<"2.7", "5.6", "1.9">>, <<"0", "0", "1">>, <<"-2", "3", "0.5">>, <<"5", "-1.5", "4">>}
Sampled == {[H0 |-> "67.74", Om0 |-> "0.3075", w0 |-> "-1"], [H0 |-> "82", Om0 |-> "0.2", w0 |-> "-0.7"], [H0 |-> "55", Om0 |-> "0.6", w0 |-> "-1.4"]}
Merge(a, b) == a @@ b
Astro(f) == IF f = "PowerLawRedshift" THEN {[lamb |-> x] : x \in PowerLaws} ELSE {[gamma |-> x[1], kappa |-> x[2], z_peak |-> x[3]] : x \in Madaus}
CosmoPars(c) == IF CosmologyNames(c) = {} THEN {<<>>} ELSE {[n \in CosmologyNames(c) |-> x[n]] : x \in Sampled}
DInit == /\ fn \in {"PowerLawRedshift", "MadauDickinsonRedshift"} /\ cosmo \in Cosmos /\ zmax \in ZMax /\ done = FALSE
         /\ \E a \in Astro(fn), b \in CosmoPars(cosmo) : p = IF b = <<>> THEN a ELSE Merge(a, b)
Points == <<"0.001", "0.05", zmax \oslash "3", zmax \otimes "0.9", zmax, zmax \otimes "1.0000001", zmax \otimes "1.7">>
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<fn, cosmo, zmax, p>>
         /\ PrintT("CASE|" \o ToJson([fn |-> fn, cosmo |-> cosmo, zmax |-> zmax, p |-> p, z |-> Points]))
DSpec == DInit /\ [][DNext]_<<fn, cosmo, zmax, p, done>>
C == Cosmology(cosmo, p)
PsiNormalised == done => Near(Psi(fn, Zero, p), One, "1e-30", "0")
\* the quadrature is converged, and the volume element is the derivative of the comoving volume 4 pi d^3/3
Converged == done => LET F(z) == DVolume(fn, C, z, p) IN
  Near(Quad(F, Zero, zmax, 1 + Floor(zmax)), Volume(fn, C, zmax, p), "1e-9", "0")
VolumeElement == done => LET F(z) == DVcDz(C, z) IN
  Near(Quad(F, Zero, One, 2), ("4" \otimes Pi \otimes Cube(ComovingDistance(C, One))) \oslash "3", "1e-12", "0")
LuminosityDerivative == done =>
  Near((LuminosityDistance(C, "0.700001") \ominus LuminosityDistance(C, "0.699999")) \oslash "0.000002", DDLDz(C, "0.7"), "1e-9", "0")
FixedIsSampled == (done /\ cosmo = "Planck15") =>
  Eq(DVcDz(C, "0.5"), DVcDz(Cosmology("FlatwCDM", [H0 |-> "67.74", Om0 |-> "0.3075", w0 |-> "-1"]), "0.5"))
=============================================================================
