-------------------------------- MODULE Mass --------------------------------
(***************************************************************************)
(* Compact-object mass models (C04, C05).                                  *)
(* p is a record of hyperparameters, x a record with the coordinates of    *)
(* one point (mass, or mass_1 with mass_ratio or mass_2).                  *)
(***************************************************************************)
EXTENDS Densities, TLC

(* -- one-dimensional models ---------------------------------------------- *)
Pl(m, alpha, p) == PowerLaw(m, Neg(alpha), p.mmax, p.mmin)
GMax(p) == IF "gaussian_mass_maximum" \in DOMAIN p THEN p.gaussian_mass_maximum ELSE "100"
Peak(m, mu, sigma, p) == TruncNorm(m, mu, sigma, GMax(p), p.mmin)
Mix(lam, a, b) == ((One \ominus lam) \otimes a) \oplus (lam \otimes b)

Break(p) == p.mmin \oplus (p.break_fraction \otimes (p.mmax \ominus p.mmin))
\* two power laws, equal at the break, normalised together
BrokenPl(m, p) ==
  IF (m \prec p.mmin) \/ (p.mmax \prec m) THEN Zero
  ELSE LET b == Break(p)
           \* integral of (x/b)^-a over [lo, hi]
           I(a, lo, hi) == IF Eq(a, One) THEN b \otimes Ln(hi \oslash lo)
                           ELSE LET k == One \ominus a
                                IN (b \oslash k) \otimes (Pow(hi \oslash b, k) \ominus Pow(lo \oslash b, k))
           n == I(p.alpha_1, p.mmin, b) \oplus I(p.alpha_2, b, p.mmax)
       IN  Pow(m \oslash b, Neg(IF m \prec b THEN p.alpha_1 ELSE p.alpha_2)) \oslash n

TwoComp(m, alpha, p) == Mix(p.lam, Pl(m, alpha, p), Peak(m, p.mpp, p.sigpp, p))
ThreeComp(m, p) == Mix(p.lam, Pl(m, p.alpha, p),
                       Mix(p.lam_1, Peak(m, p.mpp_2, p.sigpp_2, p), Peak(m, p.mpp_1, p.sigpp_1, p)))
BrokenPeak(m, p) == Mix(p.lam, BrokenPl(m, p), Peak(m, p.mpp, p.sigpp, p))

Primary(fn, m, p) ==
  CASE fn = "power_law_mass" -> Pl(m, p.alpha, p)
    [] fn = "two_component_single" -> TwoComp(m, p.alpha, p)
    [] fn = "three_component_single" -> ThreeComp(m, p)
    [] fn = "double_power_law_primary_mass" -> BrokenPl(m, p)
    [] fn = "double_power_law_peak_primary_mass" -> BrokenPeak(m, p)
OneD == {"power_law_mass", "two_component_single", "three_component_single",
         "double_power_law_primary_mass", "double_power_law_peak_primary_mass"}

(* -- pairings ---------------------------------------------------------------- *)
\* mass ratio power law on [mmin/m1, 1]; there is no such range for m1 <= mmin
MassRatio(q, m1, beta, p) ==
  IF m1 \preceq p.mmin THEN Zero ELSE PowerLaw(q, beta, One, p.mmin \oslash m1)
Ordered(a, b, m1, m2) == IF m1 \prec m2 THEN Zero ELSE Two \otimes a \otimes b
NoPeak == [lam |-> Zero, mpp |-> "35", sigpp |-> One]
RatioPrimary(fn, m1, p) ==
  CASE fn = "power_law_primary_mass_ratio" -> Pl(m1, p.alpha, p)
    [] fn = "two_component_primary_mass_ratio" -> TwoComp(m1, p.alpha, p)
    [] fn = "double_power_law_primary_power_law_mass_ratio" -> BrokenPl(m1, p)
RatioFns == {"power_law_primary_mass_ratio", "two_component_primary_mass_ratio",
          "double_power_law_primary_power_law_mass_ratio"}
Pair(fn, x, p) ==
  CASE fn = "power_law_primary_secondary_independent" ->
         Ordered(Pl(x.mass_1, p.alpha, p), Pl(x.mass_2, p.beta, p), x.mass_1, x.mass_2)
    [] fn = "power_law_primary_secondary_identical" ->
         Ordered(Pl(x.mass_1, p.alpha, p), Pl(x.mass_2, p.alpha, p), x.mass_1, x.mass_2)
    [] fn = "two_component_primary_secondary_independent" ->
         Ordered(TwoComp(x.mass_1, p.alpha, p), TwoComp(x.mass_2, p.beta, p), x.mass_1, x.mass_2)
    [] fn = "two_component_primary_secondary_identical" ->
         Ordered(TwoComp(x.mass_1, p.alpha, p), TwoComp(x.mass_2, p.alpha, p), x.mass_1, x.mass_2)
Pairs == {"power_law_primary_secondary_independent", "power_law_primary_secondary_identical",
          "two_component_primary_secondary_independent", "two_component_primary_secondary_identical"}
MassModel(fn, x, p) ==
  CASE fn \in OneD  -> Primary(fn, x.mass, p)
    [] fn \in RatioFns -> LET a == RatioPrimary(fn, x.mass_1, p)
                       IN IF a = Zero THEN Zero ELSE a \otimes MassRatio(x.mass_ratio, x.mass_1, p.beta, p)
    [] OTHER -> Pair(fn, x, p)

\* the hyperparameters of each model
BasePars == {"mmin", "mmax"}
PeakPars == {"lam", "mpp", "sigpp", "gaussian_mass_maximum"}
BrokenPars == {"alpha_1", "alpha_2", "break_fraction"}
Params(fn) == BasePars \cup
  CASE fn = "power_law_mass" -> {"alpha"}
    [] fn = "two_component_single" -> {"alpha"} \cup PeakPars
    [] fn = "three_component_single" ->
         {"alpha", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2", "gaussian_mass_maximum"}
    [] fn = "double_power_law_primary_mass" -> BrokenPars
    [] fn = "double_power_law_peak_primary_mass" -> BrokenPars \cup PeakPars
    [] fn = "power_law_primary_mass_ratio" -> {"alpha", "beta"}
    [] fn = "two_component_primary_mass_ratio" -> {"alpha", "beta"} \cup PeakPars
    [] fn = "double_power_law_primary_power_law_mass_ratio" -> {"beta"} \cup BrokenPars
    [] fn = "power_law_primary_secondary_independent" -> {"alpha", "beta"}
    [] fn = "power_law_primary_secondary_identical" -> {"alpha"}
    [] fn = "two_component_primary_secondary_independent" -> {"alpha", "beta"} \cup PeakPars
    [] fn = "two_component_primary_secondary_identical" -> {"alpha"} \cup PeakPars

(* -- smoothed models (C05): cfg = [mmin, mmax, nm, nq, primary] ----------------- *)
\* Planck taper rising over [mmin, mmin + dm]; below 1e-430 it is zero
Window(m, mmin, hi, dm) ==
  IF (m \prec mmin) \/ (hi \prec m) THEN Zero
  ELSE IF Eq(dm, Zero) THEN One
  ELSE LET s == (m \ominus mmin) \oslash dm
       IN  IF s \preceq "0.001" THEN Zero ELSE IF s \succeq "0.999" THEN One
           ELSE One \oslash (One \oplus Exp((One \oslash s) \ominus (One \oslash (One \ominus s))))
Bounded(p, cfg) == p @@ [gaussian_mass_maximum |-> cfg.mmax]
Tapered(m, p, cfg) ==
  LET w == Window(m, p.mmin, cfg.mmax, p.delta_m)
  IN  IF w = Zero THEN Zero ELSE w \otimes Primary(cfg.primary, m, Bounded(p, cfg))
MGrid(cfg) == Linspace(cfg.mmin, cfg.mmax, cfg.nm)
QGrid(cfg) == Linspace("0.001", One, cfg.nq)
NormM1(p, cfg) ==
  IF Eq(p.delta_m, Zero) THEN One
  ELSE LET g == MGrid(cfg) IN Trapz([i \in 1..Len(g) |-> Tapered(g[i], p, cfg)], g)
TaperedQ(q, m1, p) ==
  LET w == Window(m1 \otimes q, p.mmin, m1, p.delta_m)
  IN  IF w = Zero THEN Zero ELSE w \otimes MassRatio(q, m1, p.beta, p)
\* normalisation of the mass-ratio density, tabulated over the primary mass
NormAtNode(i, p, cfg) ==
  LET m1 == cfg.mmin \oplus Div(Mul(cfg.mmax \ominus cfg.mmin, i), cfg.nm - 1)
      g == QGrid(cfg)
  IN  IF m1 \preceq p.mmin THEN Zero ELSE Trapz([k \in 1..Len(g) |-> TaperedQ(g[k], m1, p)], g)
NormQ(m1, p, cfg) ==
  IF Eq(p.delta_m, Zero) THEN One
  ELSE LET t == ((m1 \ominus cfg.mmin) \otimes (cfg.nm - 1)) \oslash (cfg.mmax \ominus cfg.mmin)
           i == IF Floor(t) > cfg.nm - 2 THEN cfg.nm - 2 ELSE Floor(t)
           u == t \ominus i
       IN  ((One \ominus u) \otimes NormAtNode(i, p, cfg)) \oplus (u \otimes NormAtNode(i + 1, p, cfg))
SmoothQ(q, m1, p, cfg) ==
  LET a == TaperedQ(q, m1, p) IN
  IF a = Zero THEN Zero ELSE LET n == NormQ(m1, p, cfg) IN IF n = Zero THEN Zero ELSE a \oslash n
Smoothed(x, p, cfg, nm1) ==
  IF (x.mass_1 \prec cfg.mmin) \/ (cfg.mmax \prec x.mass_1) THEN Zero
  ELSE LET a == Tapered(x.mass_1, p, cfg) IN
       IF a = Zero THEN Zero ELSE (a \oslash nm1) \otimes SmoothQ(x.mass_ratio, x.mass_1, p, cfg)
InRange(p, cfg) == cfg.mmin \preceq p.mmin /\ p.mmax \preceq cfg.mmax
=============================================================================
