"""C24: complete analyses."""
from lk import *
import zoo
from gwpopulation.models import mass as MM, spin as SS, redshift as RR
from gwpopulation.conversions import convert_to_beta_parameters
from gwpopulation.experimental.cosmo_models import CosmoModel
from gwpopulation.experimental.jax import JittedLikelihood
import wcosmo.astropy
out = Out()
FAM = dict(two_component_single="SinglePeakSmoothedMassDistribution", three_component_single="MultiPeakSmoothedMassDistribution",
           double_power_law_primary_mass="BrokenPowerLawSmoothedMassDistribution", double_power_law_peak_primary_mass="BrokenPowerLawPeakSmoothedMassDistribution")
C = cases()
CONF = [c["c"] for c in C if c["t"] == "conf" and c["pt"] == 1]
HIST = [c["hist"] for c in C if c["t"] == "hist"]


def components(c, cache):
    out = []
    if c["mass"] == "smoothed":
        k = c["cfg"]
        out.append(getattr(MM, FAM[k["primary"]])(mmin=float(k["mmin"]), mmax=float(k["mmax"]), normalization_shape=(k["nm"], k["nq"]), cache=cache))
    else:
        out.append(getattr(MM, c["mass"]))
    if c["spin"] == "GaussianChiEffChiP":
        out.append(SS.GaussianChiEffChiP())
    elif c["spin"] != "none":
        out.append(getattr(SS, c["spin"]))
    if c["red"] != "none":
        out.append(getattr(RR, c["red"])(z_max=float(c["zmax"]), cosmo_model=c["cosmo"]))
    return out


def samples(g, c, n):
    d = zoo.dataset_of(dict(fam="secondary" if "secondary" in c["mass"] else ""), g, (n,))
    d["mass_1"] = np.exp(g.uniform(np.log(4.7), np.log(88), n))
    d["mass_ratio"] = g.uniform(0.12, 1, n)
    if "mass_2" in d:
        d["mass_2"] = d["mass_1"] * g.uniform(0.3, 1.02, n)
        d.pop("mass_ratio")
    d["redshift"] = g.uniform(0.01, 1.1 * float(c["zmax"]), n)
    need = {"mass_1", "mass_2", "mass_ratio"}
    need |= {"redshift"} if c["red"] != "none" or c["frame"] == "detector" else set()
    need |= dict(none=set(), iid_spin={"a_1", "a_2", "cos_tilt_1", "cos_tilt_2"}, gaussian_chi_eff={"chi_eff"}, GaussianChiEffChiP={"chi_eff", "chi_p"}).get(
        c["spin"], {"a_1", "a_2"} if "magnitude" in c["spin"] else {"cos_tilt_1", "cos_tilt_2"})
    if c["mass"] == "smoothed":
        need |= {"chi_p"}     # a column no model uses
    return {k: v for k, v in d.items() if k in need}


def detector(c, d):
    z = d.pop("redshift")
    cosmo = getattr(wcosmo.astropy, c["cosmo"])
    dl = cosmo.luminosity_distance(z)
    d["luminosity_distance"] = np.asarray(getattr(dl, "value", dl), dtype=float)
    d["mass_1_detector"] = d.pop("mass_1") * (1 + z)
    return d, z


def hyper(g, c, names):
    """a point of the analysis; edges of the mass range away from the samples by construction of the random numbers"""
    p = {k: zoo.value_of(k, g) for k in sorted(names)}
    if "delta_m" in p and g.integers(5) == 0:
        p["delta_m"] = 0.0
    for k in ("alpha", "beta", "alpha_1", "alpha_2", "lamb"):
        if k in p and g.integers(5) == 0:
            p[k] = float({"alpha": 1, "beta": -1, "alpha_1": 1, "alpha_2": 1, "lamb": 0}[k])
    if c["given"] == "moments":
        for x in ["_1", "_2"] if c["spin"].startswith("independent") else [""]:
            a, b, m = p.pop("alpha_chi" + x), p.pop("beta_chi" + x), p["amax" + x]
            p["mu_chi" + x] = a / (a + b) * m
            p["sigma_chi" + x] = a * b / (a + b) ** 2 / (a + b + 1) * m ** 2
    if c["kind"] == "rate":
        p["rate"] = float(g.uniform(1, 60))
    return p


def names_of(c):
    out = set()
    for f_ in components(c, False):
        if hasattr(f_, "variable_names"):
            out |= set(f_.variable_names)
        elif c["spin"] == "GaussianChiEffChiP" and "Gaussian" in type(f_).__name__:
            out |= {"mu_chi_eff", "sigma_chi_eff", "mu_chi_p", "sigma_chi_p", "spin_covariance"}
        else:
            import inspect
            out |= set(inspect.getfullargspec(f_).args[1:])
    return out


def build(g, be, c, i):
    m = xp(be)
    jit = be == "jit"
    n_ev, n_s, n_i = int(g.integers(1, 4)), int(g.integers(3, 7)), int(g.integers(20, 36))
    shared = bool(g.integers(2))
    cache = not shared and be == "numpy" and bool(g.integers(2))
    hyper_ = components(c, cache)
    sel_ = hyper_ if shared else components(c, cache)
    g.shuffle(hyper_) if not shared else None
    mk = (lambda l: CosmoModel(l, cosmo_model=c["cosmo"])) if c["frame"] == "detector" else (lambda l: Model(l, cache=be == "numpy"))
    post, T = [], []
    for e in range(n_ev):
        d = samples(g, c, n_s)
        z = None
        if c["frame"] == "detector":
            d, z = detector(c, d)
        pr = g.uniform(0.2, 3, n_s)
        post.append(shuffle_index(g, pd.DataFrame({**d, "prior": pr, "row": np.arange(n_s, dtype=float)})))
        T.append(dict(x={k: nums(v) for k, v in d.items()}, prior=nums(pr), **({"z": nums(z)} if z is not None else {})))
    d = samples(g, c, n_i)
    z = None
    if c["frame"] == "detector":
        d, z = detector(c, d)
    pr = g.uniform(0.2, 3, n_i)
    total = int(n_i * g.integers(2, 30))
    time = [None, 0.4, 2.5][g.integers(3)]
    inj = {k: m.asarray(v) for k, v in {**d, "prior": pr}.items()}
    inj["total_generated"] = total
    if time is not None:
        inj["analysis_time"] = time
    nev = [np.inf, float(n_ev), 0.05][g.integers(3)]
    enforce = bool(g.integers(2))
    maxunc = [np.inf, np.inf, 0.7, 1.5][g.integers(4)]
    kw = {}
    if c["given"] == "moments":
        kw["conversion_function"] = convert_to_beta_parameters
    sel = ResamplingVT(mk(sel_), inj, n_events=nev, enforce_convergence=enforce)
    lk = KIND[c["kind"]](post, mk(hyper_), selection_function=sel, maximum_uncertainty=maxunc, **kw)
    # rows in the order the likelihood holds them
    for e in range(n_ev):
        rows = [int(r) for r in np.asarray(lk.data["row"])[e]]
        t = T[e]
        T[e] = dict(x={k: [v[r] for r in rows] for k, v in t["x"].items()}, prior=[t["prior"][r] for r in rows], **({"z": [t["z"][r] for r in rows]} if "z" in t else {}))
    I = dict(x={k: nums(v) for k, v in d.items()}, prior=nums(pr), **({"z": nums(z)} if z is not None else {}))
    D = dict(c=c, post=T, inj=I, total=num(total), maxunc=num(maxunc), nev=num(nev), enforce=enforce, time=num(1 if time is None else time))
    return lk, sel, D


def step(lk, sel, j, op, p, conv):
    e = dict(op=op, p=tree(p))
    q = conv(dict(p))[0] if op in ("eff", "hyper") and conv else dict(p)
    if op == "ratio":
        e["out"] = observe(lk.log_likelihood_ratio, dict(p))
    elif op == "jit":
        e["out"] = observe(j.log_likelihood_ratio, dict(p))
    elif op == "full":
        r, x = attempt(lk.ln_likelihood_and_variance, dict(p))
        e["ln"], e["var"] = (x, x) if x else (seen(r[0]), seen(r[1]))
    elif op == "eff":
        r, x = attempt(sel.detection_efficiency, q)
        e["mu"], e["var"] = (x, x) if x else (seen(r[0]), seen(r[1]))
    elif op == "hyper":
        e["out"] = observe(sel.surveyed_hypervolume, q)
    elif op == "extra":
        r, x = attempt(lk.generate_extra_statistics, dict(p))
        e["out"] = x or dict(k="dict", d={k: seen(v) for k, v in r.items()})
    elif op == "weights":
        r, x = attempt(lk.posterior_predictive_resample, [dict(p)], True)
        e["out"] = [nums(v) for v in np.asarray(r[1])] if r is not None else [[]] * lk.n_posteriors
    return e


N = dict(numpy=(900 if THOROUGH else 110), jax=(60 if THOROUGH else 12))
for be in ["numpy", "jax"]:
    set_backend(be)
    for i in range(N[be]):
        if not mine(i):
            continue
        g = rng(f"c24-{be}-{i}")
        c = dict(CONF[int(g.integers(len(CONF)))])
        c["cfg"] = dict(c["cfg"], nm=int(g.integers(15, 40)), nq=int(g.integers(8, 20)))
        lk, sel, D = build(g, be, c, i)
        names = names_of(c)
        pts = [hyper(g, c, names) for _ in range(2)]
        conv = convert_to_beta_parameters if c["given"] == "moments" else None
        j = JittedLikelihood(lk) if be == "jax" else None
        h = [(s["op"], s["at"]) for k in range(2) for s in HIST[int(g.integers(len(HIST)))]]
        h = h[: 6 if THOROUGH else 5] + [("weights", int(g.integers(1, 3)))]
        if j is not None:
            h = [("jit" if op in ("ratio", "hyper") else op, at) for op, at in h[:4]] + [("jit", 1)]
        ev = [step(lk, sel, j, op, pts[at - 1], conv) for op, at in h]
        out.scenario(f"{be}-{i}", ev, D=D, history=True)
out.close()
