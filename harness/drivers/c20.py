"""C20: the numpyro formulation."""
from lk import *
import jax, jax.numpy as jnp
from numpyro import handlers
from gwpopulation.models.redshift import PowerLawRedshift, MadauDickinsonRedshift
from gwpopulation.experimental.numpyro import gwpopulation_likelihood_model
out = Out()
set_backend("jax")
g = rng(f"c20-{SHARD}")


class FlatPower(PowerLawRedshift):
    """redshift models with unit weights: only their volume enters"""
    def __call__(self, dataset, **parameters):
        return jnp.ones(dataset["x"].shape)


class FlatMadau(MadauDickinsonRedshift):
    def __call__(self, dataset, **parameters):
        return jnp.ones(dataset["x"].shape)


def build(i):
    n = int(g.integers(1, 5))
    k = [4, 6, 3][i % 3]
    model = ["lin", "col", "lin"][i % 3]
    conv = ["id", "double"][g.integers(2)]
    post = tables(g, n, [k] * n, prior=bool(i % 4), extra=i % 5 == 0)
    for e, t in enumerate(post):
        t["w"] = g.uniform(.2, 2, k)
        if i % 2:                            # one sample carries the weight, another one in every event
            t["w"] = 1e-13
            t.loc[t.index[(e * 2 + i) % k], "w"] = 1.0
            if model == "lin":
                t[["x", "y"]] *= 1e-13
                t.loc[t.index[(e * 2 + i) % k], ["x", "y"]] = g.uniform(.5, 2, 2)
        if i % 12 == 4:                      # no variance at all
            t["w"] = 1.0
    m = int(g.integers(6, 14))
    inj = injections(g, m, total=bool(i % 3))
    inj["w"] = g.uniform(.2, 2, m)
    if i % 4 == 1:
        heavy = g.permutation(m)[: n + 1]
        for c in ("x", "y", "w"):
            inj[c] = np.where(np.isin(np.arange(m), heavy), inj[c], 1e-14)
    if i % 8 == 7:                           # no injection of any weight
        for c in ("x", "y", "w"):
            inj[c] = np.zeros(m)
    if i % 3 == 1:
        inj["analysis_time"] = float(g.uniform(.2, 3))
    hp, _ = model_of(model, "jax", ["function", "uncached"][g.integers(2)])
    smodel = ["lin", "col"][g.integers(2)] if model == "col" else "lin"
    red = None
    sm = [lin if smodel == "lin" else col]
    if i % 5 == 3:
        red = [FlatPower, FlatMadau][g.integers(2)](z_max=1.5)
        sm.append(red)
    jinj = {a: jnp.asarray(v) if np.ndim(v) else v for a, v in inj.items()}
    vt = ResamplingVT(Model(sm, cache=False), jinj, n_events=[n, np.inf][g.integers(2)], enforce_convergence=bool(g.integers(2)), marginalize_uncertainty=bool(g.integers(4) == 0))
    kw = dict(conversion_function=[double, double_keep, double_inplace][g.integers(3)]) if conv == "double" else {}
    if red is not None and g.integers(2):      # the evolution parameters are converted as well
        base = kw.get("conversion_function", lambda r: (r, []))

        def evolve(r):
            r, added = base(dict(r))
            for n_, v in (("lamb", 0.5), ("kappa", 1.3)):
                if n_ in r:
                    r[n_] = r[n_] * v
            return r, added
        kw["conversion_function"] = evolve
    lk = hyperpe.HyperparameterLikelihood(post, hp, selection_function=vt, **kw)
    D = dict(kind="marg", model=model, conv=conv, names=[], maxunc="inf", lnev=[],
             sel=dict(k="inj", model=smodel, inj={a: nums(v) for a, v in inj.items() if np.ndim(v)}, m=m, total=num(inj.get("total_generated", m)), nev=num(n), enforce=False))
    describe(lk, D, post)
    return lk, D, vt, red, inj, post


def run(lk, D, vt, red, inj, post, i, jit):
    p = dict(a=float(g.uniform(.1, 3)))
    p["c" if D["conv"] == "double" else "b"] = float(g.uniform(.1, 2))
    flat = all(np.all(t["w"] == 1.0) for t in post) and i % 2
    if flat:
        p["a"] = 1.0
    q = dict(p)
    if isinstance(red, PowerLawRedshift):
        q["lamb"] = float(g.uniform(-1, 3))
    elif red is not None:
        q.update(gamma=2.0, kappa=3.0, z_peak=1.5)
    bad = i % 7 == 6
    zero = i % 7 == 2 and D["model"] == "lin" and red is None      # no weight at all
    if zero:
        q["a"] = q["c" if "c" in q else "b"] = 0.0
    bad = bad or zero or not np.any(inj["w"])
    if bad and i % 7 == 6:                   # undefined weights
        q["a"] = np.nan
    both = [c for c in post[0] if c != "prior" and c in inj]
    keys = [None, both, both[:1], []][int(g.integers(4))]
    apply, predict = bool(g.integers(4)), bool(g.integers(3))
    if not np.any(inj["w"]) and not zero:
        apply = True
    varmax = [np.inf, float(10 ** g.uniform(-3, 1)), 0.05, 1e6][int(g.integers(4))]
    if flat:
        apply, varmax = False, 0.0
    if bad:
        varmax, predict = 1.0, False
    kw = dict(varmax=varmax, apply_selection=apply, predictive_resample=predict)
    if keys is not None:
        kw["fit_keys"] = keys
    wrap = [float, jnp.asarray][int(g.integers(2))]
    h = {a: wrap(v) for a, v in q.items()}
    fn = handlers.seed(gwpopulation_likelihood_model, jax.random.PRNGKey(i))
    res = {}
    if bad:                                  # compiled, as samplers do: eager numpyro rejects an undefined rate itself
        v, x = attempt(jax.jit(lambda r: handlers.seed(gwpopulation_likelihood_model, jax.random.PRNGKey(0))(lk, r, **kw)), h)
        return dict(op="numpyro_nan", p=tree(p), ok=x is None, varmax=num(varmax), out=x or seen(v))
    tr, x = attempt(handlers.trace(lambda *a, **b: res.setdefault("out", fn(*a, **b))).get_trace, lk, dict(h), **kw)
    e = dict(op="numpyro", p=tree(p), ok=x is None, apply=apply, predict=predict, varmax=num(varmax), sites={}, out=x or dict(k="other"),
             keys=[c for c in lk.data] if keys is None else keys, injkeys=[c for c in inj if np.ndim(inj[c])] if keys is None else keys, ratemean="0", ratevar="0", volume="1")
    if x is None:
        e["sites"] = {a: seen(t["value"]) for a, t in tr.items()}
        e["out"] = seen(res["out"])
        if "rate" in tr and tr["rate"]["type"] == "sample":
            fn_ = tr["rate"]["fn"]
            e["ratemean"], e["ratevar"] = num(np.asarray(fn_.mean).item()), num(np.asarray(fn_.variance).item())
        if apply:
            e["volume"] = num(float(vt.surveyed_hypervolume(lk.conversion_function(dict(q))[0])))
        if jit:
            e["jit"] = observe(jax.jit(lambda r: handlers.seed(gwpopulation_likelihood_model, jax.random.PRNGKey(0))(lk, r, **kw)), h)
    return e


for i in range(400 if THOROUGH else 80):
    if not mine(i):
        continue
    args = build(i)
    out.scenario(f"np-{SHARD}-{i}", [run(*args, i * 5 + j, jit=j == 0 and i % 4 == 0) for j in range(4)], D=args[1], history=True)
out.close()
