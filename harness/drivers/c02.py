"""C02: the same request with numpy, jax and compiled jax, in all forms and shapes."""
from zoo import *
import gwpopulation.utils as U
import gwpopulation.conversions as CV
from gwpopulation.models.redshift import total_four_volume
out = Out()
BE = dict(numpy="numpy", jax="jax", jit="jax")
COSMO = dict(FlatLambdaCDM=["H0", "Om0"], FlatwCDM=["H0", "Om0", "w0"], Planck15=[])
M1 = [4.0, 3.0, 80.0, 5.0, 79.5, 12.0, 30.0, 33.3, 45.1, 60.0, 81.0, 2.0, 7.5, 100.0, 101.0, 4.25, 9.0, 20.5]
Q = [1.0, 0.9, 0.5, 1.01, 0.31, 0.7, 0.99, 0.2, 0.6, 0.85, 0.4, 0.95, 0.05, 0.8, 0.75, 0.97, 0.45, 0.3]
A = [0.5, 0.0, 1.0, 0.1, 0.99, 1.2, 0.3, 0.7, 0.01, 0.8, 0.45, 0.62, -0.1, 0.9, 0.2, 0.55, 0.35, 0.85]
T = [0.5, -1.0, 1.0, 0.0, -0.99, 0.99, 0.3, -0.7, 0.01, 0.8, -0.45, 0.62, -0.1, 0.9, 0.2, -0.55, 0.35, 0.85]
Z = [0.5, 0.01, 1.0, 2.3, 2.29, 2.4, 0.3, 1.7, 0.1, 0.8, 0.45, 0.62, 3.5, 0.9, 0.2, 1.55, 1.35, 0.05]
COL = dict(mass_1=M1, mass_ratio=Q, mass_2=[m * q for m, q in zip(M1, Q)], a_1=A, a_2=A[::-1], cos_tilt_1=T, cos_tilt_2=T[::-1], chi_eff=T, chi_p=[abs(t) for t in T[::-1]],
           redshift=Z, mass_1_detector=[m * 1.3 for m in M1], luminosity_distance=[300 + 310 * i for i in range(18)])


class Request:
    """one function or model, its dataset and its hyperparameters"""
    def __init__(self, name, make, cols, pars, special=(), tol="std", pure=True, first=None, ints=True, empty=True):
        self.name, self.make, self.cols, self.pars, self.special = name, make, cols, pars, list(special)
        self.tol, self.pure, self.ints, self.empty = tol, pure, ints, empty
        self.obj, self.jit, self.data = {}, {}, {}

    def model(self, be):
        if be not in self.obj:
            self.obj[be] = self.make()
        return self.obj[be]

    def dataset(self, be, sh):
        if (be, sh) not in self.data:
            n = int(np.prod(sh))
            self.data[be, sh] = {k: xp(be).asarray(np.array(v[:n], float).reshape(sh)) for k, v in self.cols.items()}
        return self.data[be, sh]

    def call(self, mode, form, sh, p):
        be = BE[mode]
        m = xp(be)
        if form == "int" and not (self.ints and all(float(v).is_integer() for v in p.values())):
            form = "float"
        p = {k: int(v) if form == "int" else m.asarray(float(v)) if form == "array" else float(v) for k, v in p.items()}
        d = self.dataset(be, sh)

        def go():
            f = self.model(be)
            # objects that keep what belongs to their dataset get one object for each
            if not self.pure:
                key = (be, sh)
                if key not in self.obj:
                    self.obj[key] = self.make()
                    if mode == "jit":       # the first evaluation fixes the nodes of splines
                        self.obj[key](d, **{k: float(v) for k, v in p.items()})
                f = self.obj[key]
            if mode != "jit":
                return f(d, **p)
            import jax
            key = sh if self.pure else (sh,)
            if key not in self.jit:
                self.jit[key] = jax.jit(f) if self.pure else jax.jit(lambda **q: f(d, **q))
            if not self.pure:
                return self.jit[key](**p)
            return self.jit[key](d, **p)
        return form, observe(go)

    def event(self, mode, form, sh, p, op="eval"):
        set_backend(BE[mode])
        form, o = self.call(mode, form, sh, p)
        return dict(op=op, fn=self.name, mode=mode, form=form, sh=list(sh), tol=self.tol, p=tree(p), out=o)

    def reference(self, p):
        n = len(next(iter(self.cols.values())))
        return self.event("numpy", "float", (n,), p, "ref")

    def params(self, g):
        return self.pars(g) if callable(self.pars) else {k: (float(g.uniform(*v)) if isinstance(v, tuple) else v) for k, v in self.pars.items()}


def col(*names):
    return {k: COL[k] for k in names}


def one(f, key="x"):
    return lambda: (lambda d, **p: f(d[key], **p))


PL = dict(alpha=(-4, 4), high=(60, 90), low=(3, 8))
R = [
    Request("powerlaw", one(U.powerlaw), dict(x=M1), PL, [dict(alpha=-1, high=80, low=4), dict(alpha=0, high=80, low=5), dict(alpha=-2, high=60, low=3), dict(alpha=2, high=80, low=4)]),
    Request("truncnorm", one(U.truncnorm), dict(x=M1), dict(mu=(-20, 120), sigma=(2, 30), high=(50, 90), low=(3, 12)),
            [dict(mu=30, sigma=5, high=80, low=4), dict(mu=3, sigma=1, high=80, low=4), dict(mu=100, sigma=4, high=80, low=5), dict(mu=4, sigma=2, high=80, low=4)]),
    Request("beta_dist", one(U.beta_dist), dict(x=A), dict(alpha=(.6, 8), beta=(.6, 8), scale=(.4, 1)), [dict(alpha=2, beta=3, scale=1), dict(alpha=4, beta=2, scale=1)], tol="beta"),
    Request("von_mises", one(U.von_mises), dict(x=T), dict(mu=(-3, 3), kappa=(-2, 30)), [dict(mu=0, kappa=0), dict(mu=1, kappa=5), dict(mu=-1, kappa=-2), dict(mu=0, kappa=400)]),
    Request("unnormalized_2d_gaussian", lambda: (lambda d, **p: U.unnormalized_2d_gaussian(d["x"], d["y"], **p)), dict(x=T, y=A),
            dict(mu_x=(-1, 1), mu_y=(-1, 1), sigma_x=(.1, 2), sigma_y=(.1, 2), covariance=(-.95, .95)),
            [dict(mu_x=0, mu_y=1, sigma_x=1, sigma_y=2, covariance=0)]),
    Request("trapezoid", lambda: (lambda d, s: U.trapezoid(xp(BEN()).stack([d["x"] * s, d["x"] ** 2, d["y"]]), xp(BEN()).asarray([0.0, 1.0, 3.0]), axis=0)), dict(x=T, y=A), dict(s=(-1, 1)), [dict(s=2)]),
    Request("to_beta", lambda: (lambda d, **p: sum(CV.mu_var_max_to_alpha_beta_max(d["mu"], **p))), dict(mu=[.2 + .01 * i for i in range(18)]), dict(var=(.001, .02), amax=(.6, 1)), []),
    Request("from_beta", lambda: (lambda d, **p: sum(CV.alpha_beta_max_to_mu_var_max(d["al"], **p))), dict(al=[1 + .2 * i for i in range(18)]), dict(beta=(.5, 5), amax=(.6, 1)), [dict(beta=2, amax=1)]),
]


def BEN():
    return "jax" if "jax" in U.xp.__name__ else "numpy"


MASS = dict(alpha=(-3, 6), beta=(-3, 5), alpha_1=(-2, 5), alpha_2=(-2, 6), mmin=(3, 8), mmax=(60, 90), break_fraction=(.1, .8), lam=(0, 1), lam_1=(0, 1), mpp=(20, 50), sigpp=(1, 10),
            mpp_1=(8, 30), sigpp_1=(1, 8), mpp_2=(25, 60), sigpp_2=(1, 10), gaussian_mass_maximum=(70, 110), delta_m=(.5, 15))
INT = dict(alpha=1, beta=-1, alpha_1=1, alpha_2=3, mmin=4, mmax=80, break_fraction=.5, lam=0, lam_1=1, mpp=30, sigpp=4, mpp_1=10, sigpp_1=2, mpp_2=35, sigpp_2=3, gaussian_mass_maximum=100, delta_m=0)
INT2 = dict(INT, alpha=2, beta=0, alpha_1=2, alpha_2=1, lam=1, lam_1=0, delta_m=5)


def mass_request(fn, names, cols):
    f = getattr(MM, fn)
    make = one(f, "mass_1") if cols == ["mass_1"] else (lambda: f)
    c = col(*cols)
    if "mass_ratio" in c:       # at the minimum mass the range of the mass ratio is a point
        c["mass_1"] = [4.125 if m == 4 else m for m in M1]
    R.append(Request(fn, make, c, {k: MASS[k] for k in names}, [{k: INT[k] for k in names}, {k: INT2[k] for k in names}]))


PK = ["lam", "mpp", "sigpp", "gaussian_mass_maximum"]
RG = ["mmin", "mmax"]
BK = ["alpha_1", "alpha_2", "break_fraction"]
MP = ["lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2"]
mass_request("power_law_mass", ["alpha"] + RG, ["mass_1"])
mass_request("two_component_single", ["alpha"] + RG + PK, ["mass_1"])
mass_request("three_component_single", ["alpha", "gaussian_mass_maximum"] + RG + MP, ["mass_1"])
mass_request("double_power_law_primary_mass", BK + RG, ["mass_1"])
mass_request("double_power_law_peak_primary_mass", BK + RG + ["lam", "mpp", "sigpp", "gaussian_mass_maximum"], ["mass_1"])
mass_request("power_law_primary_mass_ratio", ["alpha", "beta"] + RG, ["mass_1", "mass_ratio"])
mass_request("two_component_primary_mass_ratio", ["alpha", "beta"] + RG + PK, ["mass_1", "mass_ratio"])
mass_request("double_power_law_primary_power_law_mass_ratio", BK + ["beta"] + RG, ["mass_1", "mass_ratio"])
mass_request("power_law_primary_secondary_independent", ["alpha", "beta"] + RG, ["mass_1", "mass_2"])
mass_request("power_law_primary_secondary_identical", ["alpha"] + RG, ["mass_1", "mass_2"])
mass_request("two_component_primary_secondary_independent", ["alpha", "beta"] + RG + PK, ["mass_1", "mass_2"])
mass_request("two_component_primary_secondary_identical", ["alpha"] + RG + PK, ["mass_1", "mass_2"])

SPIN = dict(xi_spin=(0, 1), sigma_spin=(.1, 3), mu_spin=(-1, 1), sigma_1=(.1, 3), sigma_2=(.1, 3), mu_1=(-1, 1), mu_2=(-1, 1), amax=(.5, 1), amax_1=(.5, 1), amax_2=(.5, 1), alpha_chi=(1.01, 6),
            beta_chi=(1.01, 6), alpha_chi_1=(1.01, 6), alpha_chi_2=(1.01, 6), beta_chi_1=(1.01, 6), beta_chi_2=(1.01, 6), mu_chi_eff=(-.9, .9), sigma_chi_eff=(.05, 2), mu_chi_p=(0, 1),
            sigma_chi_p=(.05, 2), spin_covariance=(-.9, .9))
SINT = dict({k: 1 for k in SPIN}, xi_spin=0, spin_covariance=0, alpha_chi=2, beta_chi=3, alpha_chi_1=2, beta_chi_1=3, alpha_chi_2=4, beta_chi_2=2, mu_chi_eff=0, mu_chi_p=0)
for fn, cols, names, tol in [
        ("iid_spin_magnitude_beta", "a", ["amax", "alpha_chi", "beta_chi"], "beta"), ("independent_spin_magnitude_beta", "a", ["alpha_chi_1", "alpha_chi_2", "beta_chi_1", "beta_chi_2", "amax_1", "amax_2"], "beta"),
        ("iid_spin_orientation_gaussian_isotropic", "t", ["xi_spin", "sigma_spin", "mu_spin"], "std"), ("independent_spin_orientation_gaussian_isotropic", "t", ["xi_spin", "sigma_1", "sigma_2", "mu_1", "mu_2"], "std"),
        ("iid_spin", "at", ["xi_spin", "sigma_spin", "amax", "alpha_chi", "beta_chi"], "beta"),
        ("gaussian_chi_eff", "e", ["mu_chi_eff", "sigma_chi_eff"], "std"), ("gaussian_chi_p", "p", ["mu_chi_p", "sigma_chi_p"], "std"),
        ("GaussianChiEffChiP", "ep", ["mu_chi_eff", "sigma_chi_eff", "mu_chi_p", "sigma_chi_p", "spin_covariance"], "std")]:
    cs = dict(a=["a_1", "a_2"], t=["cos_tilt_1", "cos_tilt_2"], e=["chi_eff"], p=["chi_p"])
    cols = sum([cs[c] for c in cols], [])
    f = getattr(SS, fn)
    R.append(Request(fn, (lambda f=f: f()) if isinstance(f, type) else (lambda f=f: f), col(*cols), {k: SPIN[k] for k in names}, [{k: SINT[k] for k in names}, {k: dict(SINT, xi_spin=1)[k] for k in names}], tol=tol))

SMP = dict(SinglePeakSmoothedMassDistribution=["alpha", "mmin", "mmax", "lam", "mpp", "sigpp", "beta", "delta_m"],
           MultiPeakSmoothedMassDistribution=["alpha", "beta", "delta_m"] + RG + MP, BrokenPowerLawSmoothedMassDistribution=BK + RG + ["beta", "delta_m"],
           BrokenPowerLawPeakSmoothedMassDistribution=BK + RG + ["lam", "mpp", "sigpp", "beta", "delta_m"])
for fn, names in SMP.items():
    for cache in (True, False):
        # numpy and jax differ for a mass at the limit of a taper of zero width; such points are moved
        cols = dict(mass_1=[4.125 if m == 4 else m for m in M1], mass_ratio=[.98 if i == 15 else q for i, q in enumerate(Q)])
        R.append(Request(f"{fn}{'' if cache else '-uncached'}", lambda fn=fn, cache=cache: build(dict(fam=fn, mmin=2, mmax=100), cache=cache), cols,
                         {k: MASS[k] for k in names}, [{k: INT[k] for k in names}, {k: INT2[k] for k in names}], pure=False))
for fam in BASE:
    for reg in (False, True):
        c = dict(fam=fam, n=6, reg=reg, kind="cubic" if not reg else "linear")
        names = ["alpha", "beta", "mmin", "mmax", "delta_m"] if fam == "InterpolatedPowerlaw" else []
        cols = dict(InterpolatedPowerlaw=["mass_1", "mass_ratio"], SplineSpinMagnitudeIdentical=["a_1", "a_2"], SplineSpinTiltIdentical=["cos_tilt_1", "cos_tilt_2"], Spline=["chi_eff"])[fam]
        R.append(Request(f"{fam}-{reg}", lambda c=c: build(c), col(*cols), lambda g, c=c, n=names: params_of(c, n, g), pure=False, ints=False))
for fam, names in dict(PowerLawRedshift=dict(lamb=(-4, 5)), MadauDickinsonRedshift=dict(gamma=(0, 5), kappa=(1, 8), z_peak=(.5, 3))).items():
    for cosmo, cn in COSMO.items():
        pars = {**names, **{k: dict(H0=(50, 90), Om0=(.15, .5), w0=(-1.4, -.6))[k] for k in cn}}
        sp = {k: dict(lamb=0, gamma=2, kappa=3, z_peak=2, H0=70, Om0=.3, w0=-1)[k] for k in pars}
        c = dict(fam=fam, cosmo=cosmo)
        R.append(Request(f"{fam}-{cosmo}", lambda c=c: build(c), col("redshift"), pars, [sp], pure=False))
        if cosmo != "FlatwCDM":
            R.append(Request(f"{fam}-{cosmo}-normalisation", lambda c=c: (lambda d, **p: d["redshift"] * 0 + build(c).normalisation(p)), col("redshift"), pars, [sp]))
for cosmo, cn in COSMO.items():
    pars = {k: dict(H0=(50, 90), Om0=(.15, .5), w0=(-1.4, -.6))[k] for k in cn}
    R.append(Request(f"CosmoModel-{cosmo}", lambda cosmo=cosmo: build(dict(fam="CosmoModel", cosmo=cosmo)).prob, col("mass_1_detector", "luminosity_distance"), {"a": (.1, 3), **pars},
                     [dict(dict(a=1, H0=70, Om0=.3, w0=-1), **{}) if cn else dict(a=2)] if cosmo != "FlatLambdaCDM" else [dict(a=1, H0=70, Om0=.3)]))
R.append(Request("total_four_volume", lambda: (lambda d, lamb: d["redshift"] * 0 + total_four_volume(lamb, analysis_time=0.5, max_redshift=1.9)), col("redshift"), dict(lamb=(-3, 4)), [dict(lamb=0), dict(lamb=-1)]))

lat = cases()
g = rng("c02")
for i, r in enumerate(R):
    if not mine(i):
        continue
    q = rng("c02-" + r.name)
    pts = [dict(s) for s in r.special] + [r.params(q) for _ in range(40 if THOROUGH else 8)]
    # sweep over the hyperparameters in all modes; splines fix their nodes first
    for k, p in enumerate(pts):
        ev = [r.reference(p)]
        special = k < len(r.special)
        for mode, form in [("numpy", "array"), ("jax", "float"), ("jax", "array"), ("jit", "float")] + ([("numpy", "int"), ("jax", "int"), ("jit", "int")] if special else [("jit", "array")]):
            ev.append(r.event(mode, form, (18,), p))
        out.scenario(f"{r.name}-sweep-{k}", ev, history=True)
    # histories of the specification
    pick = q.permutation(len(lat))[: (60 if THOROUGH else 12)]
    for k, j in enumerate(pick):
        sh = tuple(lat[j]["sh"])
        p = pts[int(q.integers(len(pts)))]
        ev = [r.reference(p)] + [r.event(h["mode"], h["form"], sh, p) for h in lat[j]["hist"]]
        out.scenario(f"{r.name}-hist-{j}", ev, history=True)
out.close()
