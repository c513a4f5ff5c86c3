----------------------------- MODULE Densities -----------------------------
(***************************************************************************)
(* The elementary probability densities from which every population model  *)
(* is built (property C03).  Reals are decimal numerals, see Dec.          *)
(***************************************************************************)
EXTENDS Dec

(* p(x) = (1+a) x^a / (hi^(1+a) - lo^(1+a)) on [lo, hi]; 1/(x ln(hi/lo)) for a = -1 *)
PowerLawNorm(a, hi, lo) ==
  IF Eq(a, "-1") THEN One \oslash Ln(hi \oslash lo)
  ELSE LET p == One \oplus a IN p \oslash (Pow(hi, p) \ominus Pow(lo, p))
PowerLaw(x, a, hi, lo) ==
  IF (x \prec lo) \/ (hi \prec x) THEN Zero
  ELSE Pow(x, a) \otimes PowerLawNorm(a, hi, lo)

(* Probability of (a, b) under the standard normal, without cancellation in the tails. *)
NormalMass(a, b) ==
  IF a \succ Zero THEN Phi(Neg(a)) \ominus Phi(Neg(b)) ELSE Phi(b) \ominus Phi(a)
NormalPdf(x, mu, sigma) ==
  LET z == (x \ominus mu) \oslash sigma
  IN  Exp(Neg(Sq(z) \oslash Two)) \oslash (sigma \otimes Sqrt(Two \otimes Pi))
TruncNorm(x, mu, sigma, hi, lo) ==
  IF (x \prec lo) \/ (hi \prec x) THEN Zero
  ELSE NormalPdf(x, mu, sigma)
       \oslash NormalMass((lo \ominus mu) \oslash sigma, (hi \ominus mu) \oslash sigma)

(* Beta density on [0, scale].  At an end point it is the limit from       *)
(* inside: zero, a finite value, or infinite, where no number is stated.   *)
LnB(a, b) == (LnGamma(a) \oplus LnGamma(b)) \ominus LnGamma(a \oplus b)
BetaEnd(a, b, scale) ==   \* the end point to which the shape parameter a belongs
  IF One \prec a THEN Zero
  ELSE IF Eq(a, One) THEN b \oslash scale      \* 1 / B(1, b) = b
  ELSE "edge"
Beta(x, a, b, scale) ==
  IF (x \prec Zero) \/ (scale \prec x) THEN Zero
  ELSE IF Eq(x, Zero) THEN BetaEnd(a, b, scale)
  ELSE IF Eq(x, scale) THEN BetaEnd(b, a, scale)
  ELSE LET u == x \oslash scale
       IN  Exp((((a \ominus One) \otimes Ln(u)) \oplus ((b \ominus One) \otimes Ln(One \ominus u)))
               \ominus LnB(a, b)) \oslash scale

VonMises(x, mu, kappa) ==
  Exp(kappa \otimes Cos(x \ominus mu)) \oslash (Two \otimes Pi \otimes BesselI0(kappa))

(* exp(-r' S^-1 r / 2), S = [[sx^2, rho sx sy], [rho sx sy, sy^2]] *)
Gauss2D(x, y, mx, my, sx, sy, rho) ==
  LET u == (x \ominus mx) \oslash sx
      v == (y \ominus my) \oslash sy
      q == ((Sq(u) \oplus Sq(v)) \ominus (Two \otimes rho \otimes u \otimes v))
           \oslash (One \ominus Sq(rho))
  IN  Exp(Neg(q \oslash Two))
=============================================================================
