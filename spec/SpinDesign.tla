----------------------------- MODULE SpinDesign -----------------------------
(***************************************************************************)
(* Design check of the spin models and enumeration of the requests.        *)
(***************************************************************************)
EXTENDS Spin, Json
CONSTANTS Betas, Xis, Gauss, Rhos, Fine
VARIABLES fn, p, done
\* alpha_1, beta_1, alpha_2, beta_2, amax_1, amax_2
QBetas == {<<"2", "5", "3.5", "1.5", "1", "0.8">>, <<"1", "1", "4", "2", "0.9", "1">>, <<"6", "1", "1.2", "9", "0.7", "0.6">>}
TBetas == QBetas \cup {<<"1.01", "30", "15", "1.5", "1", "0.3">>, <<"0.5", "2", "2", "0.7", "1", "1">>}
QXis == {"0", "0.35", "1"}
TXis == {"0", "0.01", "0.35", "0.8", "1"}
\* sigma_1, sigma_2, mu_1, mu_2
QGauss == {<<"0.3", "1.4", "1", "0.5">>, <<"0.1", "0.2", "-0.3", "0.9">>, <<"4", "0.5", "1", "-1">>}
TGauss == QGauss \cup {<<"0.05", "3", "0", "1">>, <<"1", "1", "2", "-2">>}
QRhos == {"-0.6", "0", "0.85"}
TRhos == {"-0.95", "-0.6", "0", "0.3", "0.85"}
Make(b, xi, g, r) ==
  [alpha_chi |-> b[1], beta_chi |-> b[2], amax |-> b[6], alpha_chi_1 |-> b[1], beta_chi_1 |-> b[2], alpha_chi_2 |-> b[3], beta_chi_2 |-> b[4],
   amax_1 |-> b[5], amax_2 |-> b[6], xi_spin |-> xi, sigma_spin |-> g[1], mu_spin |-> g[3], sigma_1 |-> g[1], sigma_2 |-> g[2],
   mu_1 |-> g[3], mu_2 |-> g[4], mu_chi_eff |-> g[4], sigma_chi_eff |-> g[1], mu_chi_p |-> Abs(g[4]), sigma_chi_p |-> g[2], spin_covariance |-> r]
Pts(c) == CASE c \in {"a_1", "a_2"} -> <<"0.001", "0.15", "0.4", "0.59", "0.65", "0.75", "0.85", "0.95", "0.999", "1.2", "-0.1", "0.3">>
            [] c \in {"cos_tilt_1", "cos_tilt_2"} -> <<"-1", "-0.7", "-0.2", "0", "0.1", "0.4", "0.6", "0.8", "0.95", "1", "-0.95", "0.5">>
            [] c = "chi_eff" -> <<"-1", "-0.7", "-0.2", "0", "0.1", "0.4", "0.6", "0.8", "0.95", "1", "-1.01", "1.3">>
            [] c = "chi_p" -> <<"0", "0.001", "0.2", "0.3", "0.45", "0.6", "0.8", "0.9", "0.95", "1", "-0.01", "1.01">>
Rot(q, k) == [i \in 1..Len(q) |-> q[1 + ((i * (2 * k + 1) + k) % Len(q))]]
\* pairs of coordinates in two different orders (odd multipliers 1 and 5 are units modulo 12)
Points == [c \in Coords(fn) |-> CASE c \in {"a_1", "chi_eff"} -> Rot(Pts(c), 0) \o Rot(Pts(c), 2) \o Rot(Pts(c), 3)
                                  [] c \in {"a_2", "chi_p"} -> Rot(Pts(c), 2) \o Rot(Pts(c), 3) \o Rot(Pts(c), 3)
                                  [] c = "cos_tilt_1" -> Rot(Pts(c), 3) \o Rot(Pts(c), 0) \o Rot(Pts(c), 5)
                                  [] OTHER -> Rot(Pts(c), 5) \o Rot(Pts(c), 2) \o Rot(Pts(c), 3)]
DInit == /\ fn \in SpinFns /\ done = FALSE
         /\ p \in {[n \in SpinPars(fn) |-> Make(b, xi, g, r)[n]] : b \in Betas, xi \in Xis, g \in Gauss, r \in Rhos}
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<fn, p>>
         /\ PrintT("CASE|" \o ToJson([fn |-> fn, p |-> p, x |-> Points]))
DSpec == DInit /\ [][DNext]_<<fn, p, done>>
(* -- invariants -- *)
Mid(F(_), lo, hi) == LET w == (hi \ominus lo) \oslash Fine
                     IN  w \otimes Sum([i \in 1..Fine |-> F(lo \oplus (w \otimes Div(2 * i - 1, 2)))])
\* the models are products (or a mixture of two products) of normalised one-dimensional factors
Normalised == done =>
  CASE fn = "independent_spin_magnitude_beta" ->
         LET F(a) == Beta(a, p.alpha_chi_2, p.beta_chi_2, p.amax_2)
         IN (One \preceq p.alpha_chi_2 /\ One \preceq p.beta_chi_2) => Near(Mid(F, Zero, p.amax_2), One, "0.02", "0")
    [] fn = "independent_spin_orientation_gaussian_isotropic" ->
         LET F(a) == TruncNorm(a, p.mu_2, p.sigma_2, One, "-1") IN Near(Mid(F, "-1", One), One, "0.02", "0")
    [] fn \in {"gaussian_chi_eff", "gaussian_chi_p"} ->
         LET F(a) == SpinModel(fn, [chi_eff |-> a, chi_p |-> a], p) IN Near(Mid(F, "-1", One), One, "0.03", "0")
    [] fn = "GaussianChiEffChiP" -> Near(JointNorm(p, 100), JointNorm(p, 200), "0.001", "0") /\ JointNorm(p, 100) \succ Zero
    [] OTHER -> TRUE
\* without correlation the joint normalisation factorises
Factorises == (done /\ fn = "GaussianChiEffChiP" /\ Eq(p.spin_covariance, Zero)) =>
  Near(JointNorm(p, 200),
       Two \otimes Pi \otimes p.sigma_chi_eff \otimes p.sigma_chi_p
       \otimes NormalMass(("-1" \ominus p.mu_chi_eff) \oslash p.sigma_chi_eff, (One \ominus p.mu_chi_eff) \oslash p.sigma_chi_eff)
       \otimes NormalMass((Zero \ominus p.mu_chi_p) \oslash p.sigma_chi_p, (One \ominus p.mu_chi_p) \oslash p.sigma_chi_p), "0.001", "0")
IidIsIndependent == (done /\ fn = "iid_spin_magnitude_beta") =>
  \A i \in 1..6 : LET x == [a_1 |-> Points.a_1[i], a_2 |-> Points.a_2[i]] IN
    SpinModel(fn, x, p) = SpinModel("independent_spin_magnitude_beta", x,
       [alpha_chi_1 |-> p.alpha_chi, alpha_chi_2 |-> p.alpha_chi, beta_chi_1 |-> p.beta_chi, beta_chi_2 |-> p.beta_chi, amax_1 |-> p.amax, amax_2 |-> p.amax])
\* limits of the mixture
Isotropic == (done /\ fn = "iid_spin_orientation_gaussian_isotropic" /\ Eq(p.xi_spin, Zero)) =>
  Eq(SpinModel(fn, [cos_tilt_1 |-> "0.3", cos_tilt_2 |-> "-0.9"], p), "0.25")
=============================================================================
