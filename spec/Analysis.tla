------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* A complete population analysis (C24): the models of masses, spins and   *)
(* redshift multiplied together, evaluated on the samples of every event   *)
(* and on the injections, and combined by the likelihood.                  *)
(*                                                                         *)
(* c is the configuration:                                                 *)
(*   mass    closed-form model, or "smoothed" (then cfg as in Mass)        *)
(*   spin    spin model or "none"                                          *)
(*   given   "shape" or "moments": how the beta distributions are given    *)
(*   red     redshift model or "none", with cosmo and zmax                 *)
(*   frame   "source" or "detector": frame of the samples                  *)
(*   kind    "marg" or "rate"                                              *)
(* p are the hyperparameters as sampled.                                   *)
(***************************************************************************)
EXTENDS Mass, Spin, Frame, Likelihood, Conversion

(* -- the hyperparameters the models see ----------------------------------- *)
Wrapped(p) == [n \in DOMAIN p |-> [k |-> "val", v |-> p[n]]]
Sampled(c, p) ==
  IF c.given = "shape" THEN p
  ELSE LET P == Converted(Wrapped(p)) IN [n \in DOMAIN P |-> P[n].v]

(* -- one sample -------------------------------------------------------------- *)
\* a sample as given has luminosity_distance and mass_1_detector in the detector frame; z is its redshift
InSource(c, x, z) ==
  IF c.frame = "source" THEN x
  ELSE [n \in OutKeys(DOMAIN x) |-> CASE n = "redshift" -> z
                                      [] n = "mass_1" -> x.mass_1_detector \oslash (One \oplus z)
                                      [] OTHER -> x[n]]
\* normalisations that do not depend on the sample
Norms(c, q) ==
  [m |-> IF c.mass = "smoothed" THEN NormM1(q, c.cfg) ELSE One,
   v |-> IF c.red = "none" THEN One ELSE Volume(c.red, Cosmology(c.cosmo, q), c.zmax, q),
   j |-> IF c.spin = "GaussianChiEffChiP" THEN JointNorm(q, 400) ELSE One]
MassFactor(c, x, q, N) == IF c.mass = "smoothed" THEN Smoothed(x, q, c.cfg, N.m) ELSE MassModel(c.mass, x, q)
SpinFactor(c, x, q, N) ==
  CASE c.spin = "none" -> One
    [] c.spin = "GaussianChiEffChiP" -> JointShape(x, q) \oslash N.j
    [] OTHER -> SpinModel(c.spin, x, q)
RedshiftFactor(c, x, q, N) ==
  IF c.red = "none" THEN One ELSE RedshiftDensity(c.red, Cosmology(c.cosmo, q), x.redshift, c.zmax, q, N.v)
\* density of the population in the frame of the samples
Density(c, x0, z, q, N) ==
  LET x == InSource(c, x0, z)
      a == MassFactor(c, x, q, N)
  IN  IF a = Zero THEN Zero
      ELSE LET b == RedshiftFactor(c, x, q, N) IN
           IF b = Zero THEN Zero
           ELSE LET d == a \otimes b \otimes SpinFactor(c, x, q, N)
                IN  IF c.frame = "source" THEN d
                    ELSE d \oslash Jacobian(Cosmology(c.cosmo, q), z, NConverted(DOMAIN x0), TRUE)

(* -- tables -------------------------------------------------------------------- *)
Row(t, k) == [n \in DOMAIN t |-> t[n][k]]
\* T = [x |-> columns, prior |-> sequence, z |-> redshifts (detector frame only)]
Weights(c, T, q, N) ==
  [k \in DOMAIN T.prior |-> Density(c, Row(T.x, k), IF c.frame = "source" THEN Zero ELSE T.z[k], q, N) \oslash T.prior[k]]
(* -- the analysis: D = [c, post, inj, total, maxunc, nev, enforce, time] ------------ *)
OutcomeWith(D, p, N) ==
  LET q == Sampled(D.c, p)
      W == [i \in DOMAIN D.post |-> Weights(D.c, D.post[i], q, N)]
      w == Weights(D.c, D.inj, q, N)
      mu == Efficiency(w, D.total)  va == EfficiencyVar(w, D.total)
      r == IF D.c.kind = "rate" THEN p.rate ELSE One
      conv == ~D.enforce \/ Converged(mu, va, D.nev)
      def == Defined(D.c.kind, W, IF conv THEN mu ELSE "inf", r)
  IN  [W |-> W, w |-> w, mu |-> mu, va |-> va, rate |-> r, converged |-> conv, defined |-> def,
       ln |-> IF def THEN Ln0(D.c.kind, W, mu, r) ELSE Zero,
       var |-> IF def THEN Var0(D.c.kind, W, mu, va, r) ELSE Zero]
Outcome(D, p) == OutcomeWith(D, p, Norms(D.c, Sampled(D.c, p)))
\* surveyed volume time, Gpc^3 yr
Hypervolume(D, p) ==
  ((IF D.c.red = "none" THEN Volume("flat", Named("Planck15"), "2.3", p) ELSE Norms([D.c EXCEPT !.mass = "none", !.spin = "none"], p).v) \otimes D.time) \oslash "1e9"
=============================================================================
