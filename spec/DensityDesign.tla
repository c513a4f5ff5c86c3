--------------------------- MODULE DensityDesign ---------------------------
(***************************************************************************)
(* Design check of the elementary densities and enumeration of the         *)
(* boundary lattice replayed in the code.  A state is one evaluation       *)
(* request (density, parameters, points); the invariants say that the      *)
(* specified density is a density: non-negative, zero outside the support, *)
(* and normalised.                                                         *)
(***************************************************************************)
EXTENDS Densities, TLC, Json
CONSTANT Fine            \* number of quadrature intervals
VARIABLES c, done

PLRange == {<<"2","100">>, <<"0.01","1">>, <<"5","5.5">>, <<"0.5","2000">>}
PLCase == {[fn |-> "powerlaw", p |-> [alpha |-> a, low |-> r[1], high |-> r[2]]] :
             a \in {"-5","-2.35","-1.5","-1.01","-1.00001","-1","-0.99999","-0.99","-0.5","0","1","2","6"}, r \in PLRange}
          \cup {[fn |-> "powerlaw", p |-> [alpha |-> a, low |-> "0", high |-> "1.5"]] :
             a \in {"0","0.5","1","2","6"}}
TNCase == {[fn |-> "truncnorm", p |-> [mu |-> m, sigma |-> s, low |-> r[1], high |-> r[2]]] :
             m \in {"-3","0","0.3","2","35"}, s \in {"0.1","1","7"},
             r \in {<<"-1","1">>, <<"0","1">>, <<"2","100">>, <<"-40","-30">>}}
BCase == {[fn |-> "beta_dist", p |-> [alpha |-> a, beta |-> b, scale |-> s]] :
             a \in {"0.5","1","2.5","20"}, b \in {"0.5","1","3","15"}, s \in {"1","0.8","3"}}
VMCase == {[fn |-> "von_mises", p |-> [mu |-> m, kappa |-> k]] :
             m \in {"-2","0","1.5"}, k \in {"0","0.1","1","5","50","750","3000"}}
GCase == {[fn |-> "gauss2d", p |-> [mu_x |-> m, mu_y |-> n, sigma_x |-> s, sigma_y |-> t, covariance |-> r]] :
             m \in {"0","0.5"}, n \in {"0.2","-0.4"}, s \in {"0.1","1"}, t \in {"0.3","2"},
             r \in {"-0.9","-0.5","0","0.3","0.95"}}
Cases == PLCase \cup TNCase \cup BCase \cup VMCase \cup GCase

Lo(k) == CASE k.fn \in {"powerlaw","truncnorm"} -> k.p.low
           [] k.fn = "beta_dist" -> Zero
           [] k.fn = "von_mises" -> Neg(Pi)
           [] OTHER -> "-1"
Hi(k) == CASE k.fn \in {"powerlaw","truncnorm"} -> k.p.high
           [] k.fn = "beta_dist" -> k.p.scale
           [] k.fn = "von_mises" -> Pi
           [] OTHER -> One
At(k, x) == CASE k.fn = "powerlaw"  -> PowerLaw(x, k.p.alpha, k.p.high, k.p.low)
              [] k.fn = "truncnorm" -> TruncNorm(x, k.p.mu, k.p.sigma, k.p.high, k.p.low)
              [] k.fn = "beta_dist" -> Beta(x, k.p.alpha, k.p.beta, k.p.scale)
              [] k.fn = "von_mises" -> VonMises(x, k.p.mu, k.p.kappa)
              [] OTHER -> Gauss2D(x, "0.1", k.p.mu_x, k.p.mu_y, k.p.sigma_x, k.p.sigma_y, k.p.covariance)

\* end points, points just inside and just outside, a coarse interior grid, far outside
Points(k) ==
  LET w == Hi(k) \ominus Lo(k)
      e == w \otimes "0.000001"
  IN  Linspace(Lo(k), Hi(k), 9)
      \o <<Lo(k) \oplus e, Hi(k) \ominus e, Lo(k) \ominus e, Hi(k) \oplus e,
           Lo(k) \ominus w, Hi(k) \oplus w>>
      \o (IF k.fn = "powerlaw" /\ Lo(k) \succ Zero THEN <<Sqrt(Lo(k) \otimes Hi(k))>> ELSE <<>>)
Valid(k, x) == k.fn # "powerlaw" \/ x \succ Zero \/ (Eq(x, Zero) /\ Eq(k.p.low, Zero))

Init == c \in Cases /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ PrintT("CASE|" \o ToJson([fn |-> c.fn, p |-> c.p,
                    x |-> SelectSeq(Points(c), LAMBDA x : Valid(c, x))]))
Spec == Init /\ [][Next]_<<c, done>>

NonNegative == done => \A i \in DOMAIN Points(c) :
  LET x == Points(c)[i] IN Valid(c, x) => LET v == At(c, x) IN v = "edge" \/ Zero \preceq v
Support == (done /\ c.fn \in {"powerlaw", "truncnorm", "beta_dist"}) =>
  \A i \in DOMAIN Points(c) :
    LET x == Points(c)[i] IN
    (Valid(c, x) /\ ((x \prec Lo(c)) \/ (Hi(c) \prec x))) => At(c, x) = Zero
\* substitution x = lo + (hi-lo) (3t^2 - 2t^3) removes integrable end-point singularities
Integral(k) ==
  LET t  == [i \in 1..(Fine-1) |-> Div(i, Fine)]
      w  == Hi(k) \ominus Lo(k)
      F(u) == LET x == Lo(k) \oplus (w \otimes (Sq(u) \otimes ("3" \ominus (Two \otimes u))))
              IN  At(k, x) \otimes w \otimes ("6" \otimes u \otimes (One \ominus u))
  IN  Div(Sum(Map(F, t)), Fine)
Resolved(k) ==   \* the density is not too narrow for the quadrature
  CASE k.fn = "powerlaw" -> (Hi(k) \prec (Two \otimes Lo(k))) \/ (k.p.alpha \succeq Zero)
    [] k.fn = "truncnorm" -> (Hi(k) \ominus Lo(k)) \preceq ("15" \otimes k.p.sigma)
                             /\ Abs(k.p.mu \ominus k.p.low) \preceq ("15" \otimes k.p.sigma)
    [] k.fn = "beta_dist" -> "1" \preceq k.p.alpha /\ "1" \preceq k.p.beta
    [] k.fn = "von_mises" -> k.p.kappa \preceq "50"
    [] OTHER -> FALSE
Normalised == (done /\ Resolved(c)) => Near(Integral(c), One, "0.03", "0")
Gauss2DPeak == (done /\ c.fn = "gauss2d") =>
  /\ Near(Gauss2D(c.p.mu_x, c.p.mu_y, c.p.mu_x, c.p.mu_y, c.p.sigma_x, c.p.sigma_y, c.p.covariance), One, "1e-30", "0")
  \* along the principal direction of positive correlation, the exponent is -1/(1+rho)
  /\ Near(Ln(Gauss2D(c.p.mu_x \oplus c.p.sigma_x, c.p.mu_y \oplus c.p.sigma_y, c.p.mu_x, c.p.mu_y,
                  c.p.sigma_x, c.p.sigma_y, c.p.covariance)),
          Neg(One \oslash (One \oplus c.p.covariance)), "1e-25", "0")
=============================================================================
