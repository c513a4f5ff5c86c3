-------------------------------- MODULE Spin --------------------------------
(***************************************************************************)
(* Parametric spin models (C07).  x is one point, p the hyperparameters.   *)
(***************************************************************************)
EXTENDS Densities, TLC
Get(p, n, d) == IF n \in DOMAIN p THEN p[n] ELSE d
\* the product of two densities, "edge" where one of them is at an end point of its support
Times(a, b) == IF a = "edge" \/ b = "edge" THEN "edge" ELSE a \otimes b
MagInd(x, a1, a2, b1, b2, m1, m2) == Times(Beta(x.a_1, a1, b1, m1), Beta(x.a_2, a2, b2, m2))
\* for cosines in [-1, 1]
TiltInd(x, xi, s1, s2, m1, m2) ==
  ((One \ominus xi) \oslash "4") \oplus
  (xi \otimes TruncNorm(x.cos_tilt_1, m1, s1, One, "-1") \otimes TruncNorm(x.cos_tilt_2, m2, s2, One, "-1"))
SpinPars(fn) ==
  CASE fn = "iid_spin_magnitude_beta" -> {"amax", "alpha_chi", "beta_chi"}
    [] fn = "independent_spin_magnitude_beta" -> {"alpha_chi_1", "alpha_chi_2", "beta_chi_1", "beta_chi_2", "amax_1", "amax_2"}
    [] fn = "iid_spin_orientation_gaussian_isotropic" -> {"xi_spin", "sigma_spin", "mu_spin"}
    [] fn = "independent_spin_orientation_gaussian_isotropic" -> {"xi_spin", "sigma_1", "sigma_2", "mu_1", "mu_2"}
    [] fn = "iid_spin" -> {"xi_spin", "sigma_spin", "amax", "alpha_chi", "beta_chi"}
    [] fn = "gaussian_chi_eff" -> {"mu_chi_eff", "sigma_chi_eff"}
    [] fn = "gaussian_chi_p" -> {"mu_chi_p", "sigma_chi_p"}
    [] fn = "GaussianChiEffChiP" -> {"mu_chi_eff", "sigma_chi_eff", "mu_chi_p", "sigma_chi_p", "spin_covariance"}
Coords(fn) ==
  CASE fn \in {"iid_spin_magnitude_beta", "independent_spin_magnitude_beta"} -> {"a_1", "a_2"}
    [] fn \in {"iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic"} -> {"cos_tilt_1", "cos_tilt_2"}
    [] fn = "iid_spin" -> {"a_1", "a_2", "cos_tilt_1", "cos_tilt_2"}
    [] fn = "gaussian_chi_eff" -> {"chi_eff"}
    [] fn = "gaussian_chi_p" -> {"chi_p"}
    [] fn = "GaussianChiEffChiP" -> {"chi_eff", "chi_p"}
SpinFns == {"iid_spin_magnitude_beta", "independent_spin_magnitude_beta", "iid_spin_orientation_gaussian_isotropic",
            "independent_spin_orientation_gaussian_isotropic", "iid_spin", "gaussian_chi_eff", "gaussian_chi_p", "GaussianChiEffChiP"}
SpinModel(fn, x, p) ==
  LET mag(d) == MagInd(x, Get(p, "alpha_chi", d), Get(p, "alpha_chi", d), Get(p, "beta_chi", d), Get(p, "beta_chi", d),
                       Get(p, "amax", d), Get(p, "amax", d))
      tilt == TiltInd(x, p.xi_spin, p.sigma_spin, p.sigma_spin, Get(p, "mu_spin", One), Get(p, "mu_spin", One))
  IN
  CASE fn = "iid_spin_magnitude_beta" -> mag(One)
    [] fn = "independent_spin_magnitude_beta" ->
         MagInd(x, p.alpha_chi_1, p.alpha_chi_2, p.beta_chi_1, p.beta_chi_2, p.amax_1, p.amax_2)
    [] fn = "iid_spin_orientation_gaussian_isotropic" -> tilt
    [] fn = "independent_spin_orientation_gaussian_isotropic" ->
         TiltInd(x, p.xi_spin, p.sigma_1, p.sigma_2, Get(p, "mu_1", One), Get(p, "mu_2", One))
    [] fn = "iid_spin" -> Times(tilt, mag(One))
    [] fn = "gaussian_chi_eff" -> TruncNorm(x.chi_eff, p.mu_chi_eff, p.sigma_chi_eff, One, "-1")
    [] fn = "gaussian_chi_p" -> TruncNorm(x.chi_p, p.mu_chi_p, p.sigma_chi_p, One, Zero)

(* -- the joint model: unnormalised density and its integral over the rectangle -- *)
JointShape(x, p) ==
  IF (One \prec Abs(x.chi_eff)) \/ (x.chi_p \prec Zero) \/ (One \prec x.chi_p) THEN Zero
  ELSE Gauss2D(x.chi_eff, x.chi_p, p.mu_chi_eff, p.mu_chi_p, p.sigma_chi_eff, p.sigma_chi_p, p.spin_covariance)
\* integral over chi_eff in closed form: conditional normal given chi_p; Simpson's rule over chi_p
JointNorm(p, n) ==
  LET rho == p.spin_covariance
      sc == p.sigma_chi_eff \otimes Sqrt(One \ominus Sq(rho))
      F(y) == LET v == (y \ominus p.mu_chi_p) \oslash p.sigma_chi_p
                  m == p.mu_chi_eff \oplus (rho \otimes p.sigma_chi_eff \otimes v)
              IN  Exp(Neg(Sq(v) \oslash Two)) \otimes sc \otimes Sqrt(Two \otimes Pi)
                  \otimes NormalMass(("-1" \ominus m) \oslash sc, (One \ominus m) \oslash sc)
      w(i) == IF i = 0 \/ i = n THEN One ELSE IF i % 2 = 1 THEN "4" ELSE Two
  IN  Div(Sum([k \in 1..(n + 1) |-> w(k - 1) \otimes F(Div(k - 1, n))]), 3 * n)
=============================================================================
