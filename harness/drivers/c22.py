"""C22: operations leave the caller's objects alone."""
from zoo import *
import pandas as pd
from bilby.hyper.model import Model
from gwpopulation import hyperpe, utils, conversions
from gwpopulation.vt import GridVT, ResamplingVT
from gwpopulation.experimental.cosmo_models import CosmoMixin
out = Out()


def leaf(x):
    """content of an object, as a string"""
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{leaf(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return type(x).__name__ + "[" + ",".join(leaf(v) for v in x) + "]"
    if isinstance(x, pd.DataFrame):
        return f"frame[{list(x.columns)}|{list(x.index)}|" + ",".join(leaf(x[c].to_numpy()) for c in x) + "]"
    if isinstance(x, (bool, int, float, str)) or x is None:
        return f"{type(x).__name__}:{x!r}"
    if isinstance(x, np.ndarray) or isinstance(x, np.generic) or "jax" in type(x).__module__:
        a = np.asarray(x)
        kind = "jax" if "jax" in type(x).__module__ else type(x).__name__
        return f"{kind}:{a.dtype}:{a.shape}:{nums(a)}"
    return f"{type(x).__name__}@{id(x)}"


def content(x):
    if isinstance(x, dict):
        return dict(t="dict", d={str(k): leaf(v) for k, v in x.items()}, order=",".join(map(str, x)))
    return dict(t="other", x=leaf(x))


def digest(r):
    """a returned value, to nine digits"""
    if isinstance(r, dict):
        return "{" + ",".join(f"{k}:{digest(v)}" for k, v in r.items()) + "}"
    if isinstance(r, (list, tuple)):
        return "[" + ",".join(digest(v) for v in r) + "]"
    try:
        return "/".join(f"{float(v):.9g}" for v in np.asarray(r).reshape(-1)) + str(np.shape(r))
    except Exception:
        return type(r).__name__


def linear_converted(p):
    p["b"] = 2 * p["alpha"]            # adds its key to what it is given
    return p, ["b"]


def lin(dataset, alpha, lamb):
    return alpha * dataset["x"] + lamb ** 2 * dataset["y"]


def linb(dataset, b):
    return b * dataset["x"]


class World:
    def __init__(self, be, g, style):
        self.be, self.m = be, xp(be)
        m = self.m
        arr = [lambda v: m.asarray(v), lambda v: np.asarray(v) if be == "numpy" else m.asarray(v), lambda v: list(map(float, v))][style % 3]
        num0 = [float, lambda v: m.asarray(float(v)), lambda v: np.float64(v)][style % 3]
        k = 5
        o = {}
        o["posteriors"] = [pd.DataFrame(dict(x=g.uniform(.1, 3, k + i % 2), y=g.uniform(.1, 2, k + i % 2), prior=g.uniform(.5, 2, k + i % 2)), index=g.permutation(k + i % 2) + i) for i in range(2)]
        o["evidences"] = [list(g.normal(size=2)), g.normal(size=2)][style % 2]
        z = g.uniform(.05, 1, 8)
        o["injections"] = dict(mass_1=arr(g.uniform(10, 60, 8)), mass_ratio=arr(g.uniform(.4, 1, 8)), redshift=arr(z), prior=arr(g.uniform(.5, 2, 8)), total_generated=50, analysis_time=0.7)
        for i, q in enumerate(("analysis_time", "total_generated")):      # both may be left out
            if style // (i + 1) % 2:
                del o["injections"][q]
        a, b = np.linspace(8, 60, 4), np.linspace(.3, 1, 3)
        A, B = np.meshgrid(a, b)
        o["grid"] = dict(mass_1=A, mass_ratio=B, vt=np.abs(g.normal(size=A.shape)))
        if be == "jax":
            o["grid"] = {q: m.asarray(v) for q, v in o["grid"].items()}
        md = dataset_of(dict(fam="secondary"), g, (6,))
        o["massdata"] = {q: m.asarray(v) for q, v in md.items() if q.startswith("mass")}
        o["spindata"] = {q: m.asarray(v) for q, v in dataset_of(dict(fam=""), g, (6,)).items()}
        o["detector"] = dict(mass_1_detector=m.asarray(g.uniform(10, 80, 4)), mass_ratio=m.asarray(g.uniform(.3, 1, 4)), **{["redshift", "luminosity_distance"][style % 2]: m.asarray([g.uniform(.1, 1, 4), g.uniform(300, 5000, 4)][style % 2])})
        names = ("alpha beta alpha_1 alpha_2 mmin mmax break_fraction lam lam_1 mpp sigpp mpp_1 sigpp_1 mpp_2 sigpp_2 delta_m gaussian_mass_maximum xi_spin sigma_spin mu_spin sigma_1 sigma_2 mu_1 mu_2 "
                 "amax amax_1 amax_2 alpha_chi_1 beta_chi_1 alpha_chi_2 beta_chi_2 mu_chi_eff sigma_chi_eff mu_chi_p sigma_chi_p spin_covariance lamb gamma kappa z_peak H0 Om0 w0").split()
        h = {n: num0(value_of(n, g)) for n in names}
        h.update(mu_chi=num0(.4), sigma_chi=num0(.03), rate=num0(5.0))
        for fam in ("SplineSpinTiltIdentical", "InterpolatedPowerlaw"):
            h.update({q: num0(v) for q, v in params_of(dict(fam=fam, n=5, reg=True), [], g).items()})
        o["hyper"] = h
        o["sample"] = dict(alpha=num0(1.3), lamb=num0(.4))
        o["samples"] = [dict(alpha=num0(v), lamb=num0(.4)) for v in (0.5, 1.5, 2.0)]
        o["table"] = pd.DataFrame(dict(alpha=[.5, 1.5], lamb=[.3, .2]), index=[7, 3])
        o["bounds"] = dict(x=m.asarray(g.uniform(1, 9, 5)), low=m.asarray(g.uniform(.1, 1, 5)), high=m.asarray(g.uniform(9, 12, 5)), mu=m.asarray(g.uniform(0, 9, 5)), sigma=m.asarray(g.uniform(.5, 2, 5)),
                           alpha=m.asarray(g.uniform(-3, 2, 5)), one=m.asarray(np.ones(5)), unit=m.asarray(g.uniform(.1, .9, 5)), zero=m.asarray(0.0), a=num0(2.0), b=num0(1.0))
        self.smooth = [build(dict(fam=f), cache=bool(i % 2), grid=(20, 12)) for i, f in enumerate(SMOOTH)]
        o["massmodels"] = [self.smooth[0], build(dict(fam="PowerLawRedshift", cosmo="Planck15"))]
        self.o = o
        self.splines = [build(dict(fam="SplineSpinTiltIdentical", n=5, reg=True)), build(dict(fam="InterpolatedPowerlaw", n=5, reg=True), grid=(20, 12))]
        self.joint = build(dict(fam="GaussianChiEffChiP"))
        self.red = [build(dict(fam="MadauDickinsonRedshift", cosmo="FlatwCDM")), build(dict(fam="PowerLawRedshift", cosmo="Planck15"))]
        pair = (m.asarray(.5), m.asarray(.01))
        self.pair = pair
        post = [pd.DataFrame(dict(x=g.uniform(.1, 3, 4), y=g.uniform(.1, 2, 4), prior=g.uniform(.5, 2, 4))) for _ in range(2)]
        self.lk = hyperpe.HyperparameterLikelihood([p.copy() for p in post], lin, selection_function=lambda p: pair)
        self.lkb = hyperpe.HyperparameterLikelihood([p.copy() for p in post], linb, conversion_function=linear_converted, selection_function=lambda p: (p["b"] * .1, .001))
        self.rate = hyperpe.RateLikelihood([p.copy() for p in post], lin, selection_function=lambda p: pair)
        self.inj = ResamplingVT(lin, dict(x=m.asarray(post[0]["x"].to_numpy()), y=m.asarray(post[0]["y"].to_numpy()), prior=m.ones(4)), n_events=2, enforce_convergence=bool(style % 2))
        self.gv = GridVT(MM.power_law_primary_mass_ratio, {q: m.asarray(np.array(v)) for q, v in o["grid"].items()})

    def hyper(self, *names):
        return {n: self.o["hyper"][n] for n in names}

    def names(self, fam):
        return [n for n in build(dict(fam=fam)).variable_names]

    def run(self, op):
        o, h, m = self.o, self.o["hyper"], self.m
        d = o["massdata"]
        if op == "build_likelihood":
            lk = hyperpe.HyperparameterLikelihood(o["posteriors"], lin, ln_evidences=o["evidences"], selection_function=lambda p: self.pair)
            lk.log_likelihood_ratio(dict(alpha=1., lamb=1.))
            lk.log_likelihood(dict(alpha=1., lamb=1.))
            lk.posterior_predictive_resample([dict(alpha=1., lamb=1.)])
            lk2 = hyperpe.HyperparameterLikelihood(o["posteriors"], lin, max_samples=3)
            return len(lk.meta_data["data"]) + len(lk2.meta_data["data"])
        if op == "likelihood":
            return [self.lk.log_likelihood_ratio(h), self.lk.log_likelihood(h), self.lk.ln_likelihood_and_variance(h)]
        if op == "likelihood_converted":
            return [self.lkb.log_likelihood_ratio(h), self.lkb.ln_likelihood_and_variance(h)]
        if op == "rate_likelihood":
            return [self.rate.log_likelihood_ratio(h), self.rate.ln_likelihood_and_variance(h)]
        if op == "rate_sample":
            return [self.lk.generate_rate_posterior_sample(h), self.rate.generate_rate_posterior_sample(h)]
        if op == "extra":
            self.lkb.generate_extra_statistics(dict(alpha=1.0))
            return self.lk.generate_extra_statistics(o["sample"])
        if op == "resample_dict":
            return self.lkb.posterior_predictive_resample(h, return_weights=True)[1]
        if op == "resample_list":
            return [self.lk.posterior_predictive_resample(o["samples"], return_weights=True)[1], self.lkb.posterior_predictive_resample(o["samples"], return_weights=True)[1]]
        if op == "resample_table":
            return self.lkb.posterior_predictive_resample(o["table"], return_weights=True)[1]
        p0 = {n: h[n] for n in [*self.names(SMOOTH[0]), "lamb"]}
        if op == "build_resampling":
            r = []
            for kw in (dict(n_events=2), dict(n_events=.001, marginalize_uncertainty=True), dict(enforce_convergence=False)):
                vt = ResamplingVT(o["massmodels"], o["injections"], **kw)
                r += [vt(p0), vt.surveyed_hypervolume(p0)]
            return r
        if op == "build_grid":
            return [GridVT(MM.power_law_primary_mass_ratio, o["grid"])({n: h[n] for n in ("alpha", "beta", "mmin", "mmax")}), GridVT(o["massmodels"][:1], o["grid"])(p0)]
        if op == "efficiency":
            return [self.inj(h), self.inj.detection_efficiency(h), self.inj.surveyed_hypervolume(h)]
        if op == "grid_value":
            return self.gv(h)
        if op == "mass_function":
            return [MM.power_law_primary_mass_ratio(d, **self.hyper("alpha", "beta", "mmin", "mmax")), MM.power_law_primary_secondary_independent(d, **self.hyper("alpha", "beta", "mmin", "mmax")),
                    MM.two_component_primary_secondary_identical(d, **self.hyper("alpha", "mmin", "mmax", "lam", "mpp", "sigpp", "gaussian_mass_maximum")),
                    MM.double_power_law_primary_power_law_mass_ratio(d, **self.hyper("alpha_1", "alpha_2", "beta", "mmin", "mmax", "break_fraction"))]
        if op == "mass_model":
            return [MM.power_law_mass(d["mass_1"], **self.hyper("alpha", "mmin", "mmax")), MM.two_component_single(d["mass_1"], **self.hyper("alpha", "mmin", "mmax", "lam", "mpp", "sigpp")),
                    MM.three_component_single(d["mass_1"], **self.hyper("alpha", "mmin", "mmax", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2")),
                    MM.double_power_law_peak_primary_mass(d["mass_1"], **self.hyper("alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "lam", "mpp", "sigpp"))]
        if op == "smoothed":
            return [x(d, **{n: h[n] for n in x.variable_names}) for x in self.smooth]
        if op == "spline_mass":
            x = self.splines[1]
            return x(d, **{n: h[n] for n in x.variable_names})
        s = o["spindata"]
        if op == "spin_function":
            return [SS.iid_spin(s, **self.hyper("xi_spin", "sigma_spin", "amax"), alpha_chi=h["alpha_chi_1"], beta_chi=h["beta_chi_1"]),
                    SS.independent_spin_magnitude_beta(s, **self.hyper("alpha_chi_1", "alpha_chi_2", "beta_chi_1", "beta_chi_2", "amax_1", "amax_2")),
                    SS.independent_spin_orientation_gaussian_isotropic(s, **self.hyper("xi_spin", "sigma_1", "sigma_2", "mu_1", "mu_2")),
                    SS.gaussian_chi_eff(s, **self.hyper("mu_chi_eff", "sigma_chi_eff")), SS.gaussian_chi_p(s, **self.hyper("mu_chi_p", "sigma_chi_p"))]
        if op == "spline_spin":
            x = self.splines[0]
            return x(s, **{n: h[n] for n in x.variable_names})
        if op == "joint_spin":
            return self.joint(s, **self.hyper("mu_chi_eff", "sigma_chi_eff", "mu_chi_p", "sigma_chi_p", "spin_covariance"))
        if op == "redshift":
            r = [x(s, **{n: h[n] for n in x.variable_names}) for x in self.red]
            return r + [x.normalisation({n: h[n] for n in x.variable_names}) for x in self.red] + [self.red[0].normalisation(h), self.red[0].psi_of_z(s["redshift"], **self.hyper("gamma", "kappa", "z_peak"))]
        if op == "densities":
            b = o["bounds"]
            return [utils.powerlaw(b["x"], alpha=b["alpha"], high=b["high"], low=b["low"]), utils.powerlaw(b["x"], alpha=b["b"], high=b["high"], low=b["low"]), utils.truncnorm(b["x"], mu=b["mu"], sigma=b["sigma"], high=b["high"], low=b["low"]),
                    utils.beta_dist(b["unit"], alpha=b["a"], beta=b["b"], scale=b["one"]), utils.von_mises(b["x"], b["mu"], b["sigma"]),
                    utils.unnormalized_2d_gaussian(b["x"], b["x"], b["mu"], b["mu"], b["sigma"], b["sigma"], b["zero"]), utils.trapezoid(b["x"], b["low"])]
        if op == "frame":
            mix = CosmoMixin(cosmo_model="FlatwCDM")
            smp, jac = mix.detector_frame_to_source_frame(o["detector"], **h)
            return [smp, jac, mix.cosmology_variables(h)]
        if op == "cosmo_model":
            mod = CosmoModel([linear_m], cosmo_model="FlatLambdaCDM")
            return [mod.prob(o["detector"], **self.hyper("H0", "Om0", "alpha")), mod.prob(o["detector"], **self.hyper("H0", "Om0", "alpha"))]
        if op == "beta_parameters":
            return [conversions.convert_to_beta_parameters(h)[0]["alpha_chi_1"], conversions.convert_to_beta_parameters(self.hyper("mu_chi", "sigma_chi", "amax"))[0],
                    conversions.mu_var_max_to_alpha_beta_max(h["mu_chi"], h["sigma_chi"], h["amax"]), conversions.alpha_beta_max_to_mu_var_max(h["alpha_chi_1"], h["beta_chi_1"], h["amax"])]
        if op == "metadata":
            return [len(self.lk.meta_data["data"]), self.lk.n_posteriors]
        if op == "hyper_model":
            return Model([self.smooth[1], MM.power_law_primary_mass_ratio]).prob(d, **h)
        raise KeyError(op)


def linear_m(dataset, alpha):
    return 1 + alpha * dataset["mass_1"]


RANDOM = {"build_likelihood", "rate_sample", "resample_dict", "resample_list", "resample_table"}


def history(be, i, hist):
    w = World(be, np.random.default_rng([SEED, i, be == "jax"]), i)
    before = {k: content(v) for k, v in w.o.items()}
    ev = []
    for op in hist:
        np.random.seed(1)
        r, x = attempt(w.run, op)
        r = digest(r) if x is None else x["t"] + ":" + x["m"]
        np.random.seed(1)
        r2, x2 = attempt(w.run, op)
        r2 = digest(r2) if x2 is None else x2["t"]
        ev.append(dict(op=op, ok=x is None and x2 is None, out=r[:2000], again=r2[:2000], deterministic=True if be == "numpy" else op not in RANDOM,
                       after={k: content(v) for k, v in w.o.items()}))
    out.scenario(f"{be}-{i}", ev, D=dict(before=before, n=2), history=True)


lat = sorted((c["hist"] for c in cases()), key=str)
OPS = sorted({op for h in lat for op in h})
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c22-{be}")
    if be == "numpy":
        pick = [lat[j] for j in g.permutation(len(lat))[: 2500 if THOROUGH else 200]]
        pick += [[OPS[j] for j in g.permutation(len(OPS))] for _ in range(60 if THOROUGH else 12)]
    else:
        pick = [[OPS[j] for j in g.permutation(len(OPS))] for _ in range(24 if THOROUGH else 6)]
    for i, h in enumerate(pick):
        if mine(i):
            history(be, i, h)
out.close()
