------------------------------ MODULE Redshift ------------------------------
(***************************************************************************)
(* Redshift models (C09).                                                  *)
(***************************************************************************)
EXTENDS Cosmo
Psi(fn, z, p) ==
  CASE fn = "PowerLawRedshift" -> Pow(One \oplus z, p.lamb)
    [] fn = "MadauDickinsonRedshift" ->
         LET zp == One \oplus p.z_peak
         IN  (Pow(One \oplus z, p.gamma) \oslash (One \oplus Pow((One \oplus z) \oslash zp, p.kappa)))
             \otimes (One \oplus Pow(zp, Neg(p.kappa)))
    [] fn = "flat" -> One
RedshiftPars(fn) == IF fn = "PowerLawRedshift" THEN {"lamb"} ELSE {"gamma", "kappa", "z_peak"}
DVolume(fn, c, z, p) == (Psi(fn, z, p) \otimes DVcDz(c, z)) \oslash (One \oplus z)
\* rate-weighted spacetime volume per unit time up to zmax, Mpc^3
Volume(fn, c, zmax, p) ==
  LET F(z) == DVolume(fn, c, z, p) IN Quad(F, Zero, zmax, 2 + Floor(zmax))
RedshiftDensity(fn, c, z, zmax, p, vol) ==
  IF zmax \prec z THEN Zero ELSE DVolume(fn, c, z, p) \oslash vol
=============================================================================
