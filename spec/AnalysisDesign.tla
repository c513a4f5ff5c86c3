--------------------------- MODULE AnalysisDesign ---------------------------
(***************************************************************************)
(* Design check of Analysis: every combination of models at two points, on *)
(* a small dataset, and all histories of operations on one analysis; both  *)
(* are replayed in the code (combined at random, with larger datasets).    *)
(***************************************************************************)
EXTENDS Analysis, Json
CONSTANTS Masses, Spins, Reds, Depth
VARIABLES c, pt, hist, done, nrm
AllMasses == {"power_law_primary_mass_ratio", "two_component_primary_mass_ratio", "double_power_law_primary_power_law_mass_ratio",
              "power_law_primary_secondary_independent", "two_component_primary_secondary_identical",
              "two_component_single", "three_component_single", "double_power_law_primary_mass", "double_power_law_peak_primary_mass"}
Smoothable == {"two_component_single", "three_component_single", "double_power_law_primary_mass", "double_power_law_peak_primary_mass"}
AllSpins == {"none", "iid_spin", "iid_spin_magnitude_beta", "independent_spin_magnitude_beta", "independent_spin_orientation_gaussian_isotropic",
             "gaussian_chi_eff", "GaussianChiEffChiP"}
AllReds == {<<"none", "Planck15">>, <<"PowerLawRedshift", "Planck15">>, <<"PowerLawRedshift", "FlatLambdaCDM">>,
            <<"MadauDickinsonRedshift", "FlatwCDM">>, <<"MadauDickinsonRedshift", "WMAP9">>}
QMasses == {"power_law_primary_mass_ratio", "two_component_primary_secondary_identical", "two_component_single", "double_power_law_peak_primary_mass"}
QSpins == {"none", "iid_spin", "independent_spin_magnitude_beta", "gaussian_chi_eff"}
QReds == {<<"none", "Planck15">>, <<"PowerLawRedshift", "Planck15">>, <<"MadauDickinsonRedshift", "FlatLambdaCDM">>}
BetaSpins == {"iid_spin", "iid_spin_magnitude_beta", "independent_spin_magnitude_beta"}
Ops == {"ratio", "full", "eff", "extra", "hyper"}
Conf(m, sp, g, r, f, k) ==
  [mass |-> IF m \in Smoothable THEN "smoothed" ELSE m,
   cfg |-> [mmin |-> "3", mmax |-> "90", nm |-> 12, nq |-> 8, primary |-> m],
   spin |-> sp, given |-> g, red |-> r[1], cosmo |-> r[2], zmax |-> "2.3", frame |-> f, kind |-> k]
DInit == /\ hist = <<>> /\ done = "no" /\ nrm = <<>>
         /\ \/ /\ pt \in {1, 2}
               /\ \E m \in Masses, sp \in Spins, r \in Reds, k \in {"marg", "rate"}, f \in {"source", "detector"}, g \in {"shape", "moments"} :
                    /\ g = "moments" => sp \in BetaSpins
                    /\ (k = "rate") => f = "source"
                    /\ f = "detector" => (CosmologyNames(r[2]) = {} /\ m # "two_component_primary_secondary_identical" /\ m # "power_law_primary_secondary_independent")
                    /\ c = Conf(m, sp, g, r, f, k)
            \/ pt = 0 /\ c = <<>>
(* -- a small problem ---------------------------------------------------------- *)
Pick(a, b) == IF pt = 1 THEN a ELSE b
All == [alpha |-> Pick("2.3", "1"), beta |-> Pick("1.1", "-1"), mmin |-> Pick("5", "4.5"), mmax |-> Pick("80", "65"), lam |-> Pick("0.1", "0.5"),
        lam_1 |-> "0.3", mpp |-> "34", sigpp |-> "4", mpp_1 |-> "12", sigpp_1 |-> "3", mpp_2 |-> "36", sigpp_2 |-> "6", gaussian_mass_maximum |-> "95",
        alpha_1 |-> "1.5", alpha_2 |-> Pick("4", "1"), break_fraction |-> "0.4", delta_m |-> Pick("4", "0"),
        xi_spin |-> "0.7", sigma_spin |-> "0.8", mu_spin |-> "0.9", sigma_1 |-> "0.8", sigma_2 |-> "1.3", mu_1 |-> "1", mu_2 |-> "0.5",
        amax |-> Pick("1", "0.9"), amax_1 |-> "1", amax_2 |-> "0.9", alpha_chi |-> "1.6", beta_chi |-> "3.5", alpha_chi_1 |-> "1.6", beta_chi_1 |-> "3.5",
        alpha_chi_2 |-> "2.5", beta_chi_2 |-> "1.5", mu_chi_eff |-> "0.1", sigma_chi_eff |-> "0.3", mu_chi_p |-> "0.3", sigma_chi_p |-> "0.4", spin_covariance |-> "0.3",
        lamb |-> Pick("2.7", "0"), gamma |-> "2.7", kappa |-> "5.6", z_peak |-> "1.9", H0 |-> "70", Om0 |-> "0.3", w0 |-> "-0.9"]
Sel(names) == [n \in names |-> All[n]]
ShapePars == (IF c.mass = "smoothed" THEN (Params(c.cfg.primary) \ {"gaussian_mass_maximum"}) \cup {"beta", "delta_m"} ELSE Params(c.mass))
             \cup (IF c.spin = "none" THEN {} ELSE SpinPars(c.spin))
             \cup (IF c.red = "none" THEN {} ELSE RedshiftPars(c.red) \cup CosmologyNames(c.cosmo))
Sfx == IF c.spin = "independent_spin_magnitude_beta" THEN {"_1", "_2"} ELSE {""}
\* the same distribution given by mean and variance
Moments(p) == LET drop == UNION {{"alpha_chi" \o x, "beta_chi" \o x} : x \in Sfx}
                  M == [n \in UNION {{"mu_chi" \o x, "sigma_chi" \o x} : x \in Sfx} |->
                          LET x == CHOOSE y \in Sfx : n \in {"mu_chi" \o y, "sigma_chi" \o y}
                              F(a, b, m) == IF n = "mu_chi" \o x THEN MeanB(a, b, m) ELSE VarB(a, b, m)
                          IN  F(p["alpha_chi" \o x], p["beta_chi" \o x], p["amax" \o x])]
              IN  [n \in DOMAIN p \ drop |-> p[n]] @@ M
P0 == Sel(ShapePars)
P == IF c.given = "moments" THEN Moments(P0) ELSE P0
Xs == [mass_1 |-> <<"10.5", "33", "61">>, mass_ratio |-> <<"0.95", "0.7", "0.3">>, mass_2 |-> <<"9", "20", "7">>, redshift |-> <<"0.2", "0.7", "1.4">>,
       a_1 |-> <<"0.2", "0.5", "0.85">>, a_2 |-> <<"0.1", "0.6", "0.4">>, cos_tilt_1 |-> <<"-0.5", "0.2", "0.9">>, cos_tilt_2 |-> <<"0.1", "-0.8", "0.6">>,
       chi_eff |-> <<"-0.1", "0.3", "0.05">>, chi_p |-> <<"0.1", "0.5", "0.4">>]
Columns(t) == IF c.frame = "source" THEN t
              ELSE [n \in (DOMAIN t \ {"mass_1", "redshift"}) \cup {"mass_1_detector", "luminosity_distance"} |->
                      CASE n = "mass_1_detector" -> [k \in 1..3 |-> t.mass_1[k] \otimes (One \oplus t.redshift[k])]
                        [] n = "luminosity_distance" -> [k \in 1..3 |-> LuminosityDistance(Named(c.cosmo), t.redshift[k])]
                        [] OTHER -> t[n]]
Tab(pr) == [x |-> Columns(Xs), prior |-> pr, z |-> Xs.redshift]
D0 == [c |-> c, post |-> <<Tab(<<"1", "2", "0.5">>), Tab(<<"0.3", "1", "1">>)>>, inj |-> Tab(<<"1", "0.7", "0.4">>), total |-> "50", maxunc |-> "inf",
       nev |-> "inf", enforce |-> FALSE, time |-> "1"]
R(p) == IF c.kind = "rate" THEN p @@ [rate |-> "30"] ELSE p
DNext ==
  /\ UNCHANGED <<c, pt>>
  /\ IF pt > 0 THEN /\ done = "no" /\ done' = "yes" /\ nrm' = Norms(c, Sampled(c, P)) /\ UNCHANGED hist /\ PrintT("CASE|" \o ToJson([t |-> "conf", c |-> c, pt |-> pt]))
     ELSE /\ Len(hist) < Depth
          /\ \E o \in Ops, i \in {1, 2} : hist' = Append(hist, [op |-> o, at |-> i])
          /\ UNCHANGED <<done, nrm>>
          /\ IF Len(hist') = Depth THEN PrintT("CASE|" \o ToJson([t |-> "hist", hist |-> hist'])) ELSE TRUE
DSpec == DInit /\ [][DNext]_<<c, pt, hist, done, nrm>>

yes == done = "yes"
O(D, p) == OutcomeWith(D, R(p), nrm)   \* the normalisations are the same in all variations
\* the conversion of the spin parameters changes nothing
GivenEither == (yes /\ c.given = "moments") =>
  Near(O(D0, P).ln, O([D0 EXCEPT !.c.given = "shape"], P0).ln, "1e-25", "1e-25")
\* the marginalised likelihood does not depend on the units of the priors
Units == yes =>
  LET Sc(T) == [T EXCEPT !.prior = Map(LAMBDA y : y \otimes "7", @)]
      D1 == [D0 EXCEPT !.post = <<Sc(@[1]), Sc(@[2])>>, !.inj = Sc(@)]
      a == O(D0, P)  b == O(D1, P)
  IN  /\ b.mu = b.mu /\ Near(b.mu \otimes "7", a.mu, "1e-30", "0")
      /\ (c.kind = "marg") => (Near(b.ln, a.ln, "1e-28", "1e-28") /\ Near(b.var, a.var, "1e-28", "1e-28"))
\* the frame of the samples enters through the Jacobian alone
Frames == (yes /\ c.frame = "detector" /\ c.kind = "marg") =>
  LET a == O(D0, P)
      C2 == [c EXCEPT !.frame = "source"]
      J(k) == Jacobian(Named(c.cosmo), Xs.redshift[k], 1, TRUE)
      T2(T) == [T EXCEPT !.x = Xs, !.prior = [k \in 1..3 |-> @[k] \otimes J(k)]]
      b == OutcomeWith([D0 EXCEPT !.c = C2, !.post = <<T2(@[1]), T2(@[2])>>, !.inj = T2(@)], P, nrm)
  IN  Near(a.ln, b.ln, "1e-25", "1e-25") /\ Near(a.var, b.var, "1e-25", "1e-25")
\* events exchanged, event repeated
Exchange == yes => LET a == O(D0, P)  b == O([D0 EXCEPT !.post = <<@[2], @[1]>>], P) IN Near(a.ln, b.ln, "1e-30", "1e-30")
\* with samples equal to the injections every event has the Bayes factor total/samples * efficiency
SelfConsistent == (yes /\ c.kind = "marg") =>
  LET a == O([D0 EXCEPT !.post = <<D0.inj>>], P) IN a.defined => Near(a.ln, Ln(Div("50", 3)), "1e-28", "0")
\* the enforced threshold makes the likelihood undefined, the marginalised one then has the lowest value
Threshold == yes => LET a == O([D0 EXCEPT !.nev = "1e9", !.enforce = TRUE], P) IN ~a.converged /\ ~a.defined
=============================================================================
