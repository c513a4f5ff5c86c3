"""C23: declared hyperparameters."""
from zoo import *
from bilby.hyper.model import Model
out = Out()


def prob(m, c, d, p):
    """through a fresh hyper model"""
    if c["fam"] == "CosmoModel":
        return m.prob(d, **p)
    return Model([m]).prob(d, **p)


def direct(m, c, d, p):
    return m.prob(d, **p) if c["fam"] == "CosmoModel" else m(d, **p)


def named(o, k):
    return o["k"] == "exc" and (f"{k}'" in o["m"] or f" {k} " in o["m"] or o["m"].strip("'\"") == k or f"parameter {k}" in o["m"])


lat = cases()
pairs = [c for c in lat if c["k"] == "pair"]
hists = [c["hist"] for c in lat if c["k"] == "hist"]
for be in ["numpy", "jax"]:
    set_backend(be)
    m_ = xp(be)
    g = rng(f"c23-{be}")
    order = g.permutation(len(hists))
    use = [pairs[i % len(pairs)] for i in range(len(hists) if THOROUGH else max(len(pairs), 500))] if be == "numpy" else [pairs[i] for i in g.permutation(len(pairs))[: 60 if THOROUGH else 18]]
    for i, c in enumerate(use):
        h = hists[order[i % len(hists)]]
        r = np.random.default_rng([SEED, i, be == "jax"])
        if not mine(i):
            continue
        cfg, names = c["cfg"], c["names"]
        objs = [build(x) for x in cfg]
        data = [{k: m_.asarray(v) for k, v in dataset_of(x, r).items()} for x in cfg]
        pars = [params_of(x, n, r) for x, n in zip(cfg, names)]
        ref = [observe(direct, build(x), x, d, dict(p)) for x, d, p in zip(cfg, data, pars)]
        ev = []
        for st in h:
            j = st["i"] - 1
            m, x, d, p = objs[j], cfg[j], data[j], pars[j]
            e = dict(op=st["op"], i=st["i"])
            if st["op"] == "read":
                if not hasattr(m, "variable_names"):
                    continue
                v, err = attempt(lambda: [str(k) for k in m.variable_names])
                e["names"] = v if err is None else [err["t"]]
            elif st["op"] == "exact":
                e["out"] = observe(prob, m, x, d, {k: p[k] for k in r.permutation(sorted(p))})
            elif st["op"] == "direct":
                e["out"] = observe(direct, m, x, d, {k: p[k] for k in r.permutation(sorted(p))})
            elif st["op"] == "more":
                extra = {k: value_of(k, r) for k in ["lamb", "H0", "alpha_chi", "mpp_2", "xi_spin", "Om0"] if k not in p}
                e["out"] = observe(prob, m, x, d, {**extra, "unrelated": 3.0, "fa99": 1.0, **p, "zeta": m_.ones(3)})
            else:
                if not p:
                    continue
                k = sorted(p)[int(r.integers(len(p)))]
                e["name"] = k
                e["out"] = observe(prob, m, x, d, {n: v for n, v in p.items() if n != k})
                e["named"] = named(e["out"], k)
            ev.append(e)
        # dependence on every declared name, at the end of the history of the first object
        if be == "numpy" and i < len(pairs):
            for k in sorted(pars[0]):
                q = dict(pars[0])
                q[k] = q[k] * dict(mmax=0.8, gaussian_mass_maximum=0.5).get(k, 1.1) if q[k] else 0.1
                ev.append(dict(op="used", i=1, name=k, out=observe(direct, build(cfg[0]), cfg[0], data[0], q)))
        out.scenario(f"{be}-{i}", ev, D=dict(cfg=cfg, ref=ref), history=True)
out.close()
