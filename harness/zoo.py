"""Model objects, datasets and hyperparameters of every family, by configuration."""
from vlib import *
from gwpopulation.models import mass as MM, spin as SS, redshift as RR
from gwpopulation.models.interped import InterpolatedNoBaseModelIdentical
from gwpopulation.experimental.cosmo_models import CosmoModel

SMOOTH = ["SinglePeakSmoothedMassDistribution", "MultiPeakSmoothedMassDistribution", "BrokenPowerLawSmoothedMassDistribution", "BrokenPowerLawPeakSmoothedMassDistribution"]
BASE = dict(SplineSpinMagnitudeIdentical="a", SplineSpinTiltIdentical="cos_tilt", InterpolatedPowerlaw="mass", Spline="chi_eff")
RANGE = dict(SplineSpinMagnitudeIdentical=(0.0, 1.0), SplineSpinTiltIdentical=(-1.0, 1.0), InterpolatedPowerlaw=(3.0, 80.0), Spline=(-0.8, 0.9))


def linear(dataset, a):
    return 1 + a * dataset["mass_1"]


def build(c, cache=True, grid=(40, 30)):
    """model object of a configuration dict(fam, n, reg, cosmo[, kind, lo, hi, mmin, mmax])"""
    fam = c["fam"]
    if fam in SMOOTH:
        return getattr(MM, fam)(mmin=c.get("mmin", 3.0), mmax=c.get("mmax", 80.0), normalization_shape=c.get("grid", grid), cache=cache)
    if fam == "InterpolatedPowerlaw":
        return MM.InterpolatedPowerlaw(nodes=c["n"], kind=c.get("kind", "cubic"), mmin=c.get("mmin", 3.0), mmax=c.get("mmax", 80.0),
                                       normalization_shape=c.get("grid", grid), regularize=c["reg"])
    if fam in BASE:
        lo, hi = RANGE[fam]
        kw = dict(minimum=c.get("lo", lo), maximum=c.get("hi", hi), nodes=c["n"], kind=c.get("kind", "cubic"), regularize=c["reg"])
        if fam == "Spline":
            return InterpolatedNoBaseModelIdentical(parameters=["chi_eff"], log_nodes=False, **kw)
        return getattr(SS, fam)(**kw)
    if fam in ("PowerLawRedshift", "MadauDickinsonRedshift"):
        return getattr(RR, fam)(z_max=c.get("zmax", 2.3), cosmo_model=c["cosmo"])
    if fam == "CosmoModel":
        return CosmoModel([linear], cosmo_model=c["cosmo"])
    if fam == "GaussianChiEffChiP":
        return SS.GaussianChiEffChiP()
    return getattr(MM, fam) if hasattr(MM, fam) else getattr(SS, fam)


def value_of(name, g):
    """a generic value of a hyperparameter inside its domain"""
    u = g.uniform
    table = dict(alpha=(1.5, 4), beta=(0.5, 3), alpha_1=(1.2, 3), alpha_2=(2, 5), mmin=(4, 6), mmax=(60, 78), break_fraction=(0.2, 0.6), lam=(0.2, 0.8), lam_1=(0.2, 0.8),
                 mpp=(25, 40), sigpp=(3, 8), mpp_1=(12, 20), sigpp_1=(2, 5), mpp_2=(30, 40), sigpp_2=(3, 8), delta_m=(3, 8), gaussian_mass_maximum=(65, 95),
                 xi_spin=(0.2, 0.8), sigma_spin=(0.3, 2), mu_spin=(0.2, 0.9), sigma_1=(0.3, 2), sigma_2=(0.3, 2), mu_1=(-0.5, 0.9), mu_2=(-0.5, 0.9), amax=(0.8, 1), amax_1=(0.8, 1),
                 amax_2=(0.8, 1), alpha_chi=(1.2, 3), beta_chi=(1.2, 3), alpha_chi_1=(1.2, 3), alpha_chi_2=(1.2, 3), beta_chi_1=(1.2, 3), beta_chi_2=(1.2, 3),
                 mu_chi_eff=(-0.2, 0.4), sigma_chi_eff=(0.1, 0.5), mu_chi_p=(0.2, 0.6), sigma_chi_p=(0.1, 0.5), spin_covariance=(-0.6, 0.7),
                 lamb=(-1, 4), gamma=(1, 4), kappa=(2, 6), z_peak=(1, 2.5), H0=(55, 85), Om0=(0.2, 0.5), w0=(-1.3, -0.7), a=(0.2, 2))
    return float(u(*table[name]))


def params_of(c, names, g, n=None):
    """values for the given names; spline nodes evenly spaced over the range of the model"""
    fam = c["fam"]
    p = {}
    if fam in BASE:
        b = BASE[fam]
        n = n or c["n"]
        lo, hi = (c.get("mmin", 3.0), c.get("mmax", 80.0)) if fam == "InterpolatedPowerlaw" else (c.get("lo", RANGE[fam][0]), c.get("hi", RANGE[fam][1]))
        xs = np.exp(np.linspace(np.log(lo), np.log(hi), n)) if fam == "InterpolatedPowerlaw" else np.linspace(lo, hi, n)
        xs[0], xs[-1] = lo, hi
        for i in range(n):
            p[f"{b}{i}"] = float(xs[i])
            p[f"f{b}{i}"] = float(g.normal(0, 1))
        if c["reg"]:
            p[f"rms{b}"] = float(g.uniform(0.5, 2))
    for k in sorted(names):
        if k not in p:
            p[k] = value_of(k, g)
    return p


def dataset_of(c, g, shape=(6,)):
    u = g.uniform
    fam = c["fam"]
    z = u(0.05, 1.2, shape)
    d = dict(mass_1=u(7, 58, shape), mass_ratio=u(0.5, 0.99, shape), a_1=u(0.05, 0.78, shape), a_2=u(0.05, 0.78, shape), cos_tilt_1=u(-0.95, 0.95, shape),
             cos_tilt_2=u(-0.95, 0.95, shape), chi_eff=u(-0.7, 0.8, shape), chi_p=u(0.05, 0.95, shape), redshift=z)
    d["mass_1"] = d["mass_1"] + 3   # between 10 and 61
    if "secondary" in fam:
        d["mass_2"] = d["mass_1"] * u(0.7, 0.99, shape)
    if fam == "CosmoModel":
        return dict(mass_1_detector=u(10, 80, shape), luminosity_distance=u(300, 5000, shape))
    return d
