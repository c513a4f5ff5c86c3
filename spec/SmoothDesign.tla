---------------------------- MODULE SmoothDesign ----------------------------
(***************************************************************************)
(* Design check of the smoothed mass models (C05) and enumeration of       *)
(* configurations x hyperparameters x boundary points to be replayed.      *)
(***************************************************************************)
EXTENDS Mass, Json
CONSTANTS Cfgs, Deltas, Betas, Slopes
VARIABLES fam, cfg, p, done
\* mmin, mmax, grid in m1, grid in q
QCfgs == {<<"2", "100", 24, 15>>, <<"5", "60", 17, 30>>}
TCfgs == QCfgs \cup {<<"1", "30", 40, 20>>, <<"2.5", "200", 31, 12>>}
QDeltas == {"0", "0.5", "5", "40"}
TDeltas == QDeltas \cup {"0.01", "12"}
QBetas == {"1.2", "-1"}
TBetas == {"1.2", "-1", "0", "-4", "7"}
QSlopes == {<<"2.5", "1.5", "6">>, <<"1", "-1", "1">>}
TSlopes == QSlopes \cup {<<"-2", "4", "-3">>}
Fam == [SinglePeakSmoothedMassDistribution |-> "two_component_single",
        MultiPeakSmoothedMassDistribution |-> "three_component_single",
        BrokenPowerLawSmoothedMassDistribution |-> "double_power_law_primary_mass",
        BrokenPowerLawPeakSmoothedMassDistribution |-> "double_power_law_peak_primary_mass"]
\* hyperparameter range relative to the range of the model: inside, equal, beyond at either end
Span(c, k) == LET w == c[2] \ominus c[1] IN
  CASE k = "in"   -> <<c[1] \oplus (w \otimes "0.0337"), c[1] \oplus (w \otimes "0.613")>>
    [] k = "same" -> <<c[1], c[2]>>
    [] k = "low"  -> <<c[1] \ominus "0.01", c[2] \ominus One>>
    [] k = "high" -> <<c[1] \oplus One, c[2] \oplus "0.01">>
Pars(f) == (Params(Fam[f]) \ {"gaussian_mass_maximum"}) \cup {"beta", "delta_m"}
Make(c, k, d, b, a) ==
  [mmin |-> Span(c, k)[1], mmax |-> Span(c, k)[2], delta_m |-> d, beta |-> b, alpha |-> a[1], alpha_1 |-> a[2], alpha_2 |-> a[3],
   break_fraction |-> "0.37", lam |-> "0.2", lam_1 |-> "0.65", mpp |-> "33", sigpp |-> "6", mpp_1 |-> "12.5", sigpp_1 |-> "3",
   mpp_2 |-> "41", sigpp_2 |-> "8"]
Conf(f, c) == [mmin |-> c[1], mmax |-> c[2], nm |-> c[3], nq |-> c[4], primary |-> Fam[f]]
M1s == LET a == p.mmin b == p.mmin \oplus p.delta_m IN
  <<a, a \ominus "1e-6", a \oplus "1e-6", a \oplus (p.delta_m \otimes "0.01"), a \oplus (p.delta_m \otimes "0.3"),
    a \oplus (p.delta_m \otimes "0.7"), b, b \oplus "1e-6", cfg.mmax, cfg.mmax \ominus "1e-6", cfg.mmax \oplus "1e-6",
    p.mmax \ominus "1e-6", p.mmax \oplus "1e-6", cfg.mmin, (p.mmin \oplus p.mmax) \oslash Two, "33.3">>
Qs == <<"0.02", "0.3", "0.55", "0.8", "0.97", "1", "1.001">>
Points == LET n == Len(M1s) * Len(Qs) IN
  [mass_1 |-> [k \in 1..n |-> M1s[1 + ((k - 1) \div Len(Qs))]], mass_ratio |-> [k \in 1..n |-> Qs[1 + ((k - 1) % Len(Qs))]]]
DInit == /\ fam \in DOMAIN Fam /\ done = FALSE
         /\ \E c \in Cfgs : cfg = Conf(fam, c)
              /\ \E k \in {"in", "same", "low", "high"}, d \in Deltas, b \in Betas, a \in Slopes :
                   p = [n \in Pars(fam) |-> Make(c, k, d, b, a)[n]]
DNext == /\ ~done /\ done' = TRUE /\ UNCHANGED <<fam, cfg, p>>
         /\ PrintT("CASE|" \o ToJson([fam |-> fam, cfg |-> cfg, p |-> p, x |-> Points]))
DSpec == DInit /\ [][DNext]_<<fam, cfg, p, done>>
(* -- invariants -- *)
WindowShape == done =>
  LET v == [i \in DOMAIN M1s |-> Window(M1s[i], p.mmin, cfg.mmax, p.delta_m)] IN
  /\ \A i \in DOMAIN M1s : Zero \preceq v[i] /\ v[i] \preceq One
  /\ \A i, j \in DOMAIN M1s : (M1s[i] \preceq M1s[j] /\ M1s[j] \preceq cfg.mmax) => v[i] \preceq v[j]
  /\ \A i \in DOMAIN M1s : (M1s[i] \prec p.mmin \/ cfg.mmax \prec M1s[i]) => v[i] = Zero
  /\ (~Eq(p.delta_m, Zero)) => Near(Window(p.mmin \oplus (p.delta_m \oslash Two), p.mmin, "1000", p.delta_m), "0.5", "1e-30", "0")
\* without smoothing: the closed-form model
Unsmoothed == (done /\ Eq(p.delta_m, Zero) /\ InRange(p, cfg)) =>
  LET x == [mass_1 |-> (p.mmin \oplus p.mmax) \oslash Two, mass_ratio |-> "0.97"] IN
  Near(Smoothed(x, p, cfg, NormM1(p, cfg)),
       Primary(cfg.primary, x.mass_1, Bounded(p, cfg)) \otimes MassRatio(x.mass_ratio, x.mass_1, p.beta, p), "1e-28", "0")
\* normalised in the mass ratio at the nodes, and in the primary mass over the grid
NormalisedQ == (done /\ InRange(p, cfg) /\ ~Eq(p.delta_m, Zero)) =>
  LET m1 == MGrid(cfg)[cfg.nm - 3]  g == QGrid(cfg)
      t == Trapz([k \in DOMAIN g |-> SmoothQ(g[k], m1, p, cfg)], g)
  IN  Near(t, One, "1e-25", "0") \/ t = Zero
ZeroBelow == (done /\ InRange(p, cfg)) =>
  /\ Smoothed([mass_1 |-> p.mmin \ominus "1e-9", mass_ratio |-> "0.9"], p, cfg, One) = Zero
  /\ Smoothed([mass_1 |-> p.mmax, mass_ratio |-> (p.mmin \oslash p.mmax) \ominus "1e-9"], p, cfg, One) = Zero
=============================================================================
