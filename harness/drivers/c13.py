"""C13: finiteness and the uncertainty cut: lattice of weights enumerated by TLC."""
from lk import *
out = Out()
lattice = cases()
byw = {}
for c in lattice:
    byw.setdefault(json.dumps(c["W"]), []).append(c)
for be in ["numpy", "jax"]:
    set_backend(be)
    m = xp(be)
    g = rng(f"c13-{be}")
    for i, (w, cs) in enumerate(byw.items()):
        pick = g.integers(10)
        if not mine(i) or (be == "jax" and not THOROUGH and pick > 3):
            continue
        W = json.loads(w)
        holder = {}
        post = [pd.DataFrame(dict(w=[float(v) for v in r])) for r in W]
        lks = {k: KIND[k](post, Model([col], cache=False), selection_function=lambda p: holder["sel"]) for k in KIND}
        ev = []
        for j, c in enumerate(cs):
            kind = ["marg", "rate", "null"][(i + j) % 3]
            lk = lks[kind]
            cut = float(c["cut"])
            lk.maximum_uncertainty = cut
            s, v = float(c["s"]), float(c["v"])
            plain = c["v"] == "0" and j % 2
            if be == "jax":
                s, v = m.asarray(s), m.asarray(v)
            holder["sel"] = s if plain else (s, v)
            p = dict(a=1.0, b=1.0)
            if kind == "rate":
                p["rate"] = [2.5, 0.1, 30.0][j % 3]
            D = dict(kind=kind, model="col", conv="id", maxunc=c["cut"], lnev=[], n=2, post=[dict(w=r) for r in W],
                     sel=dict(k="raw", s=c["s"], v=c["v"]))
            ev.append(dict(op="eval", D=D, p=tree(p), llr=observe(lk.log_likelihood_ratio, dict(p)), ll="none"))
        out.scenario(f"{be}-w{i}", ev)
    # random weights with thresholds on either side of the uncertainty
    for i in range((300 if THOROUGH else 60) if be == "numpy" else (100 if THOROUGH else 20)):
        kind = ["marg", "rate", "null"][i % 3]
        gg = rng(f"c13-{be}-{i}")
        if not mine(i):
            continue
        lk, D = make(gg, be, kind=kind)
        p = point(gg, D)
        _, var = lk.ln_likelihood_and_variance(dict(p))
        unc = float(var) ** 0.5 if float(var) > 0 and np.isfinite(float(var)) else 1.0
        ev = []
        for fac in [0.3, 0.999999, 1.000001, 1.5, np.inf, 40]:
            cut = unc * fac
            lk.maximum_uncertainty = cut
            ev.append(dict(evaluate(lk, D, p, be), D=dict(D, maxunc=num(cut))))
        if np.isfinite(unc):
            cut = float(unc) * 1.01
            lk2 = KIND[kind]([pd.DataFrame({c: [f(v) for v in t[c]] for c in t}) for t in D["post"]], lk.hyper_prior if isinstance(lk.hyper_prior, Custom) else Model(list(lk.hyper_prior.models)),
                             selection_function=lk.selection_function, conversion_function=lk.conversion_function, maximum_uncertainty=cut)
            ev.append(dict(evaluate(lk2, D, p, be), D=dict(D, maxunc=num(cut))))
        out.scenario(f"{be}-cut{i}", ev, D=D)
out.close()
