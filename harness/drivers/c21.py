"""C21: the compiled likelihood."""
from lk import *
import copy
import zoo
import jax, jax.numpy as jnp
from gwpopulation.experimental.jax import JittedLikelihood
out = Out()
set_backend("jax")
g = rng(f"c21-{SHARD}")


def scaled(likelihood, parameters, scale=1.0, shift=0.0):
    return scale * likelihood.log_likelihood_ratio(parameters) + shift


def named(likelihood, parameters, which, offsets=()):
    """keyword arguments that are not numbers"""
    x = likelihood.ln_likelihood_and_variance(parameters)[0 if which == "value" else 1]
    for o in offsets:
        x = x + o
    return x


def weird(likelihood, parameters):
    """nan, infinities or finite numbers, depending on z"""
    z = parameters["z"]
    return jnp.where(z == 1, jnp.nan, jnp.where(z == 2, jnp.inf, jnp.where(z == 3, -jnp.inf, 10 * z)))


def call(j, q):
    v, x = attempt(j.log_likelihood_ratio, q)
    return (x, "-") if x else (seen(v), type(v).__name__)


WRAPS = [float, np.float64, jnp.asarray, np.asarray, lambda v: jnp.asarray(v, dtype=jnp.float64)]
NAMES = ["n_posteriors", "max_samples", "samples_per_posterior", "data", "sampling_prior", "hyper_prior", "conversion_function", "selection_function", "maximum_uncertainty"]
for i in range(240 if THOROUGH else 48):
    if not mine(i):
        continue
    n = int(g.integers(1, 4))
    kind = ["marg", "rate", "marg", "null"][i % 4]
    lnev = [None, list(g.normal(size=n) * 10)][i % 2]
    maxunc = [np.inf, float(g.uniform(.1, 2)), np.inf, 0.8][(i // 2) % 4]
    lk, D = make(g, "jax", kind=kind, n_events=n, lnev=lnev, form=["uncached", "function", "custom"][i % 3], model=["lin", "prod"][i % 2] if i % 3 == 0 else "lin",
                 selform=["function"][0], equal=True, max_samples=[None, 3][g.integers(2)], maxunc=maxunc)
    if D["sel"]["k"] == "inj" and D["sel"]["model"] == "prod":
        lk.selection_function.model = Model(list(lk.selection_function.model.models), cache=False)
    js = dict(ratio=JittedLikelihood(lk), full=JittedLikelihood(lk, kwargs=dict(use_ratio=False)), again=JittedLikelihood(lk, kwargs=dict(use_ratio=True)))
    sc, sh = float(g.uniform(.5, 3)), int(g.integers(-3, 4))
    js["custom"] = JittedLikelihood(lk, likelihood_func=scaled, kwargs=[dict(scale=sc, shift=sh), dict(shift=jnp.asarray(sh), scale=np.float64(sc))][i % 2])
    ev, pts = [], [point(g, D) for _ in range(3)]
    for k in range(14):
        p = pts[int(g.integers(3))]
        mode = ["ratio", "ratio", "full", "custom", "again", "eval", "eager"][int(g.integers(7))]
        q = {a: WRAPS[int(g.integers(len(WRAPS)))](p[a]) for a in g.permutation(sorted(p))}
        if mode == "again" and k % 2:      # a copy of a wrapper is as good as the wrapper
            c, x = attempt([copy.copy, copy.deepcopy][int(g.integers(2))], js["ratio"])
            o, t = (x, "-") if x else call(c, q)
            ev.append(dict(op="jit", mode="ratio", p=tree(p), out=o, t=t, scale=num(sc), shift=num(sh)))
        elif mode == "eager":
            ev.append(evaluate(lk, D, p, "jax"))
        elif mode == "eval":
            ev.append(evaluate(js["ratio"], D, p, "jax", wrap=WRAPS[int(g.integers(len(WRAPS)))]))
        else:
            o, t = call(js[mode], q)
            e = dict(op="jit", mode="ratio" if mode == "again" else mode, p=tree(p), out=o, t=t, scale=num(sc), shift=num(sh))
            if kind == "null" and mode != "ratio":
                e["mode"] = mode if mode != "again" else "ratio"
            ev.append(e)
    # integers
    p = {a: float(max(1, round(v))) for a, v in pts[0].items()}
    o, t = call(js["ratio"], {a: int(v) for a, v in p.items()})
    ev.append(dict(op="jit", mode="ratio", p=tree(p), out=o, t=t))
    j = js["ratio"]
    ev.append(dict(op="attrs", same={a: bool(getattr(j, a) is getattr(lk, a) or (np.ndim(getattr(j, a)) == 0 and getattr(j, a) == getattr(lk, a))) for a in NAMES if hasattr(lk, a)}))
    sample = dict(pts[1])
    got, x = attempt(j.generate_extra_statistics, sample)
    lv, x2 = attempt(lk.ln_likelihood_and_variance, dict(pts[1]))
    ev.append(dict(op="extra", p=tree(pts[1]), same=bool(got is sample) or (got is not None and dict(got) == dict(sample)),
                   out=x or dict(k="dict", d={k: seen(v) for k, v in got.items()}), llr=observe(j.log_likelihood_ratio, dict(pts[1])), var=x2 or seen(lv[1])))
    md, x = attempt(lambda: j.meta_data)
    if x or not isinstance(md, dict):
        ev.append(dict(op="meta", model=[], n_events=-1, samples=-1, data={}, plain=False, used={}, prior="-", usedprior=""))
    else:
        ev.append(dict(op="meta", model=list(md["model"]), n_events=int(md["n_events"]), samples=int(md["samples_per_posterior"]),
                       data={k: tree(v) for k, v in md["data"].items()}, plain=all(type(v) is np.ndarray for v in md["data"].values()),
                       used={k: tree(np.asarray(v)) for k, v in lk.data.items()}, prior=tree(md["sampling_prior"]), usedprior=tree(np.asarray(lk.sampling_prior))))
    out.scenario(f"lk-{SHARD}-{i}", ev, D=D, history=True)
    # undefined and infinite values, other keyword arguments
    if i < 12 or THOROUGH:
        jw = JittedLikelihood(lk, likelihood_func=weird)
        ev = []
        for z in g.permutation([1, 2, 3, 0, -4, 7]):
            o, t = call(jw, dict(z=[float, jnp.asarray][int(g.integers(2))](z)))
            ev.append(dict(op="raw", raw={1: "nan", 2: "inf", 3: "-inf"}.get(int(z), num(10.0 * z)), out=o, t=t))
        for which in ("value", "variance"):
            jn = JittedLikelihood(lk, likelihood_func=named, kwargs=dict(which=which, offsets=[1.0, 2.5]))
            o, t = call(jn, dict(pts[2]))
            w = observe(named, lk, dict(pts[2]), which, [1.0, 2.5])
            ev.append(dict(op="same", out=o, t=t, wrapped=w) if w["k"] != "arr" or w["v"][0] not in ("nan", "inf", "-inf") else dict(op="raw", raw=w["v"][0], out=o, t=t))
        out.scenario(f"raw-{SHARD}-{i}", ev, D=D, history=True)

# the models of the package
fams = zoo.SMOOTH + ["InterpolatedPowerlaw", "SplineSpinTiltIdentical", "MadauDickinsonRedshift", "GaussianChiEffChiP"]
NM = dict(MadauDickinsonRedshift=["gamma", "kappa", "z_peak", "H0", "Om0"], GaussianChiEffChiP=["mu_chi_eff", "sigma_chi_eff", "mu_chi_p", "sigma_chi_p", "spin_covariance"], SplineSpinTiltIdentical=[])
for i in range(24 if THOROUGH else 8):
    if not mine(i):
        continue
    fam = fams[i % len(fams)]
    c = dict(fam=fam, n=5, reg=bool(i % 2), cosmo="FlatLambdaCDM")
    mods = lambda: [zoo.build(c, grid=(30, 20)), zoo.build(dict(fam="PowerLawRedshift", cosmo="Planck15"))] if "Redshift" not in fam else [zoo.build(c)]
    d = zoo.dataset_of(c, g, (2, 5))
    post = [pd.DataFrame({**{k: v[e] for k, v in d.items()}, "prior": g.uniform(.5, 2, 5)}) for e in range(2)]
    inj = {**{k: jnp.asarray(v) for k, v in zoo.dataset_of(c, g, (40,)).items()}, "prior": jnp.asarray(g.uniform(.5, 2, 40)), "total_generated": 400}
    lk = hyperpe.HyperparameterLikelihood(post, Model(mods(), cache=False), selection_function=ResamplingVT(Model(mods(), cache=False), inj, n_events=2, enforce_convergence=False))
    names = NM.get(fam) if fam in NM else sorted(mods()[0].variable_names)
    if fam not in NM and "lamb" not in names or fam != "MadauDickinsonRedshift":
        names = list(names) + ["lamb"]
    j = JittedLikelihood(lk)
    ev = []
    first = zoo.params_of(c, names, g)
    for k in range(6):
        p = first if k in (0, 4) else zoo.params_of(c, names, g)
        q = {a: WRAPS[0 if k < 3 else 2](v) for a, v in p.items()}
        if fam in zoo.RANGE or k % 2:   # the nodes of splines are fixed outside of compiled code
            w = observe(lk.log_likelihood_ratio, dict(p))
            o, t = call(j, q)
        else:
            o, t = call(j, q)
            w = observe(lk.log_likelihood_ratio, dict(p))
        ev.append(dict(op="same", out=o, t=t, wrapped=w, p=tree(p)))
    out.scenario(f"pkg-{SHARD}-{i}", ev, D=dict(fam=fam), history=True)
out.close()
