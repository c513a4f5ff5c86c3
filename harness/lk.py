"""Likelihood problems for the drivers: the object and its description for the specification."""
from vlib import *
import pandas as pd
from bilby.hyper.model import Model
from gwpopulation import hyperpe
from gwpopulation.vt import ResamplingVT

KIND = dict(marg=hyperpe.HyperparameterLikelihood, rate=hyperpe.RateLikelihood, null=hyperpe.NullHyperparameterLikelihood)


def lin(dataset, a, b):
    return a * dataset["x"] + b * dataset["y"]


def fx(dataset, a):
    return 1 + a * dataset["x"]


def gy_numpy(dataset, b):
    return np.exp(-b * dataset["y"])


def gy_jax(dataset, b):
    import jax.numpy as jnp
    return jnp.exp(-b * dataset["y"])


def col(dataset, a):
    return a * dataset["w"]


class Fx:
    def __call__(self, dataset, a):
        return fx(dataset, a)


class Custom:
    """a population model that is neither a function nor a bilby model"""
    parameters = dict(a=None, b=None)
    models = []

    def __init__(self, f):
        self.f = f
        self.models = [f]

    def prob(self, data, **kw):
        return self.f(data, kw["a"], kw["b"])


def double(parameters):
    parameters = dict(parameters)
    parameters["b"] = 2 * parameters.pop("c") if "b" not in parameters else parameters["b"]
    return parameters, ["b"]


def double_keep(parameters):
    parameters = dict(parameters)
    parameters["b"] = 2 * parameters["c"]
    return parameters, ["b"]


def double_inplace(parameters):
    """conversions may work on the dictionary they are given"""
    parameters["b"] = 2 * parameters["c"]
    return parameters, ["b"]


def replace(parameters):
    """a conversion that replaces the value of a sampled parameter"""
    return {**parameters, "a": 3 * parameters["a"]}, []


def replace_inplace(parameters):
    parameters["a"] = 3 * parameters["a"]
    return parameters, ["a"]


def model_of(name, be, form):
    gy = gy_jax if be == "jax" else gy_numpy
    if name == "lin":
        return dict(function=lin, model=Model([lin]), uncached=Model([lin], cache=False), custom=Custom(lin))[form], ["lin"]
    if name == "prod" and form == "custom":    # a model that is an object, and the other order
        return Model([gy, Fx()]), [gy.__name__, "Fx"]
    if name == "prod":
        return (Model([fx, gy], cache=False) if form == "uncached" else Model([fx, gy])), ["fx", gy.__name__]
    return (col if form == "function" else Model([col], cache=form != "uncached")), ["col"]


def tables(g, n_events, lens, prior=True, extra=False, zero=0.0):
    out = []
    for i in range(n_events):
        k = lens[i]
        d = dict(x=g.uniform(0.1, 3, k), y=g.uniform(0.1, 2, k))
        if zero and g.uniform() < zero:
            d["x"][: k // 2] = 0
        if prior:
            d["prior"] = g.uniform(0.2, 4, k)
        if extra:
            d["unused"] = g.normal(size=k)
        cols = list(d)
        g.shuffle(cols)
        out.append(pd.DataFrame({c: d[c] for c in cols}))
    return out


def shuffle_index(g, t):
    """arbitrary row labels"""
    t = t.copy()
    t.index = g.permutation(len(t)) * 3 + 5
    return t


def injections(g, m, total=True):
    d = dict(x=g.uniform(0.1, 3, m), y=g.uniform(0.1, 2, m), prior=g.uniform(0.3, 2, m))
    if total:
        d["total_generated"] = int(m * g.integers(1, 20))
    return d


def make(g, be, kind="marg", n_events=None, model=None, form=None, conv=None, sel=None, maxunc=np.inf, prior=None,
         lnev=None, max_samples=None, equal=None, post=None, selfn=None, selform=None):
    """random likelihood; returns (likelihood, description)"""
    n_events = n_events or int(g.integers(1, 5))
    model = model or ["lin", "prod"][g.integers(2)]
    form = form or ["function", "model", "custom"][g.integers(3)]
    conv = conv or ["id", "double", "double", "replace"][g.integers(4)]
    sel = sel or ["plain", "pair", "pair", "inj"][g.integers(4)]
    prior = bool(g.integers(4)) if prior is None else prior
    lens = [int(g.integers(1, 9))] * n_events if (equal or g.integers(2)) else [int(k) for k in g.integers(2, 9, n_events)]
    if post is None:
        post = [shuffle_index(g, t) if g.integers(2) else t for t in tables(g, n_events, lens, prior=prior, extra=bool(g.integers(3) == 0))]
    hp, names = model_of(model, be, form)
    D = dict(kind=kind, model=model, conv=conv, names=names, maxunc=num(maxunc), lnev=[] if lnev is None else nums(lnev))
    s0, s1, s2, v0, v1 = (float(x) for x in g.uniform([0.05, 0, 0, 0, 0], [0.5, 0.1, 0.1, 0.01, 0.01]))
    if sel == "pair" and g.integers(4) == 0:      # an exactly known selection function may report zero variance
        v0 = v1 = 0.0
    if sel == "inj":
        inj = injections(g, int(g.integers(5, 30)), total=bool(g.integers(2)))
        nev = [n_events, 0.5, np.inf, 1][g.integers(4)]
        enforce = bool(g.integers(2))
        smodel = ["lin", "prod"][g.integers(2)]
        selfn = ResamplingVT(model_of(smodel, be, selform or ["function", "model"][g.integers(2)])[0],
                             {k: xp(be).asarray(v) if np.ndim(v) else v for k, v in inj.items()}, n_events=nev, enforce_convergence=enforce)
        D["sel"] = dict(k="inj", model=smodel, inj={k: nums(inj[k]) for k in ["x", "y", "prior"]}, m=len(inj["x"]),
                        total=num(inj.get("total_generated", len(inj["x"]))), nev=num(nev), enforce=enforce)
    elif sel == "plain":
        selfn = lambda p: s0 + s1 * p["a"] + s2 * p["b"]
    elif sel == "pair":
        selfn = lambda p: (s0 + s1 * p["a"] + s2 * p["b"], v0 + v1 * p["a"])
    if sel in ("plain", "pair"):
        D["sel"] = dict(k=sel, s0=num(s0), s1=num(s1), s2=num(s2), v0=num(v0), v1=num(v1))
    kw = {}
    if max_samples is not None:
        kw["max_samples"] = max_samples
    if lnev is not None:
        kw["ln_evidences"] = lnev
    if conv == "double":
        kw["conversion_function"] = [double, double_keep, double_inplace][g.integers(3)]
    if conv == "replace":
        kw["conversion_function"] = [replace, replace_inplace][g.integers(2)]
    if maxunc != np.inf or g.integers(2):
        kw["maximum_uncertainty"] = maxunc
    lk = KIND[kind](post, hp, selection_function=selfn, **kw)
    describe(lk, D, post)
    return lk, D


def describe(lk, D, post):
    n = min(len(t) for t in post)
    full = all(len(t) == n for t in post) and int(lk.samples_per_posterior) == n
    D["full"] = full
    if full:      # every row is used: the tables as given
        D["post"] = [{c: nums(t[c]) for c in t} for t in post]
    else:         # a random subset: the rows the likelihood reports to use (C14)
        D["post"] = [{**{k: nums(np.asarray(lk.data[k])[i]) for k in lk.data},
                      **({"prior": nums(np.asarray(lk.sampling_prior)[i])} if "prior" in post[0] else {})}
                     for i in range(len(post))]
    D["n"] = len(next(iter(D["post"][0].values())))


LAST = [None, None]


def point(g, D, be=None, arr=False):
    p = fresh_point(g, D)
    if LAST[0] is D and g.integers(3) == 0:      # only one hyperparameter differs from the previous point
        k = sorted(p)[g.integers(len(p))]
        p = {**LAST[1], k: p[k]}
    LAST[:] = [D, dict(p)]
    return p


def fresh_point(g, D):
    p = dict(a=float(g.uniform(0.1, 3)))
    p["c" if D["conv"] == "double" else "b"] = float(g.uniform(0.1, 2))
    if D["kind"] == "rate":
        p["rate"] = float(g.uniform(0.5, 40))
    return p


def evaluate(lk, D, p, be, wrap=None):
    q = {k: wrap(v) for k, v in p.items()} if wrap else p
    e = dict(op="eval", p=tree(p), llr=observe(lk.log_likelihood_ratio, dict(q)))
    lv, x = attempt(lk.ln_likelihood_and_variance, dict(q))
    if x:
        e["ln"] = e["var"] = x
    else:
        e["ln"], e["var"] = seen(lv[0]), seen(lv[1])
    e["noise"] = observe(lk.noise_log_likelihood)
    e["ll"] = observe(lk.log_likelihood, dict(q))
    return e
