----------------------------- MODULE Likelihood -----------------------------
(***************************************************************************)
(* The population likelihood (C11, C12, C13, C16, C20, C21) and the        *)
(* injection estimate of the detection probability (C17).                  *)
(*                                                                         *)
(* W[i][k] is the weight model/prior of sample k of event i; s and v are   *)
(* the detection probability and the variance of its estimate.             *)
(***************************************************************************)
EXTENDS Dec

Lowest == "-1.7976931348623157E308"
IsLowest(x) == IsFin(x) /\ Eq(x, Lowest)

(* Monte Carlo mean of one event and the relative variance of that mean. *)
EventOk(w) == AllFin(w) /\ Zero \prec Sum(w)
EventLn(w) == Ln(Mean(w))
EventVar(w) ==
  LET m == Mean(w) IN
  (Mean(Map(Sq, w)) \ominus Sq(m)) \oslash (Sq(m) \otimes Len(w))

(* Detection probability from found injections: sum of weights over the    *)
(* number generated, and the variance of that estimate.                    *)
Efficiency(w, total) == Sum(w) \oslash total
EfficiencyVar(w, total) ==
  (Sum(Map(Sq, w)) \oslash Sq(total)) \ominus (Sq(Efficiency(w, total)) \oslash total)
Converged(mu, var, n) == n # "inf" /\ (("4" \otimes n \otimes var) \prec Sq(mu))

(* Estimate of the log likelihood ratio and its variance.                  *)
(* kind: "marg" (rate marginalised), "rate" (Poisson), "null".             *)
Defined(kind, W, s, rate) ==
  /\ \A i \in DOMAIN W : EventOk(W[i])
  /\ IsFin(s)
  /\ IF kind = "rate" THEN Zero \prec rate ELSE Zero \prec s
Ln0(kind, W, s, rate) ==
  LET ev == Sum([i \in DOMAIN W |-> EventLn(W[i])])
      n  == Len(W)
  IN  CASE kind = "rate" -> (ev \oplus (Ln(rate) \otimes n)) \ominus (rate \otimes s)
        [] kind = "null" -> Zero
        [] OTHER -> ev \ominus (Ln(s) \otimes n)
SelVar(kind, n, s, v, rate) ==
  IF kind = "rate" THEN Sq(rate) \otimes v ELSE (v \otimes (n * n)) \oslash Sq(s)
Var0(kind, W, s, v, rate) ==
  Sum([i \in DOMAIN W |-> EventVar(W[i])]) \oplus SelVar(kind, Len(W), s, v, rate)
(* The uncertainty is the square root of the variance. *)
Exceeds(var, maxunc) == maxunc # "inf" /\ (Sq(maxunc) \prec var)
Ratio(kind, W, s, v, rate, maxunc) ==
  IF ~Defined(kind, W, s, rate) THEN Lowest
  ELSE IF Exceeds(Var0(kind, W, s, v, rate), maxunc) THEN Lowest
  ELSE Ln0(kind, W, s, rate)

(* Distribution function of Gamma(n), n a positive integer. *)
RECURSIVE GammaTail(_, _, _, _)
GammaTail(x, n, k, t) == IF k = n THEN Zero ELSE t \oplus GammaTail(x, n, k + 1, (t \otimes x) \oslash (k + 1))
GammaCdf(x, n) == One \ominus (Exp(Neg(x)) \otimes GammaTail(x, n, 0, One))
=============================================================================
