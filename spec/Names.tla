------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* The hyperparameters a model needs, as a function of its configuration   *)
(* (C23).  A configuration is [fam, n, reg, cosmo]: family, number of      *)
(* spline nodes, regularisation, cosmology; unused fields are ignored.     *)
(***************************************************************************)
EXTENDS Mass, Spin, Redshift
SmoothedFam == [SinglePeakSmoothedMassDistribution |-> "two_component_single",
             MultiPeakSmoothedMassDistribution |-> "three_component_single",
             BrokenPowerLawSmoothedMassDistribution |-> "double_power_law_primary_mass",
             BrokenPowerLawPeakSmoothedMassDistribution |-> "double_power_law_peak_primary_mass"]
SplineBase == [SplineSpinMagnitudeIdentical |-> "a", SplineSpinTiltIdentical |-> "cos_tilt", InterpolatedPowerlaw |-> "mass", Spline |-> "chi_eff"]
Redshifts == {"PowerLawRedshift", "MadauDickinsonRedshift"}
MassFunctions == {"power_law_primary_mass_ratio", "two_component_primary_mass_ratio", "double_power_law_primary_power_law_mass_ratio",
            "power_law_primary_secondary_independent", "power_law_primary_secondary_identical",
            "two_component_primary_secondary_independent", "two_component_primary_secondary_identical"}
SpinFunctions == {"iid_spin_magnitude_beta", "independent_spin_magnitude_beta", "iid_spin_orientation_gaussian_isotropic",
            "independent_spin_orientation_gaussian_isotropic", "iid_spin", "gaussian_chi_eff", "gaussian_chi_p"}
Positions(b, n) == {b \o ToString(i - 1) : i \in 1..n}
Values(b, n) == {"f" \o b \o ToString(i - 1) : i \in 1..n}
NodeNames(b, n, reg) == Positions(b, n) \cup Values(b, n) \cup (IF reg THEN {"rms" \o b} ELSE {})
NamesOf(c) ==
  CASE c.fam \in DOMAIN SmoothedFam -> (Params(SmoothedFam[c.fam]) \ {"gaussian_mass_maximum"}) \cup {"beta", "delta_m"}
    [] c.fam = "InterpolatedPowerlaw" -> {"alpha", "beta", "mmin", "mmax", "delta_m"} \cup NodeNames("mass", c.n, c.reg)
    [] c.fam \in DOMAIN SplineBase -> NodeNames(SplineBase[c.fam], c.n, c.reg)
    [] c.fam \in Redshifts -> RedshiftPars(c.fam) \cup CosmologyNames(c.cosmo)
    [] c.fam = "CosmoModel" -> {"a"} \cup CosmologyNames(c.cosmo)
    [] c.fam \in MassFunctions -> Params(c.fam)
    [] OTHER -> SpinPars(c.fam)
\* objects that report their names; the others are functions, whose arguments the hyper model reads
Reports(c) == c.fam \in DOMAIN SmoothedFam \cup DOMAIN SplineBase \cup Redshifts
\* names that the value of the model depends on whatever the other parameters are
Decisive(c) == IF c.fam \in DOMAIN SplineBase THEN NamesOf(c) \ Positions(SplineBase[c.fam], c.n)
               ELSE IF c.fam \in Redshifts THEN NamesOf(c) \ {"H0"}    \* H0 cancels in the normalised density
               ELSE NamesOf(c)
=============================================================================
