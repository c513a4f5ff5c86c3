"""C10: frame conversion and the cosmological population model."""
from vlib import *
from gwpopulation.experimental.cosmo_models import CosmoMixin, CosmoModel
from gwpopulation.models.redshift import PowerLawRedshift
out = Out()
NAMED = ["Planck15", "WMAP9", "Planck18", "WMAP5"]


def lin(dataset, a):
    return a * dataset["mass_1"] + 1


def quad(dataset, b):
    return 1 + b * dataset["mass_ratio"] ** 2


def pars(g, cosmo):
    p = {}
    if cosmo.startswith("Flat"):
        p.update(H0=float(g.uniform(50, 90)), Om0=float(g.uniform(0.15, 0.6)))
    if cosmo == "FlatwCDM":
        p["w0"] = float(g.uniform(-1.4, -0.6))
    return p


def value(g, k, shape):
    if k == "luminosity_distance":
        return np.exp(g.uniform(np.log(30), np.log(15000), shape))
    if k == "redshift":
        return g.uniform(0.01, 2.2, shape)
    if k in ("a_1", "mass_ratio"):
        return g.uniform(0.1, 1, shape)
    return g.uniform(5, 80, shape)


def conversion(obj, data, p):
    r, x = attempt(obj.detector_frame_to_source_frame, data, **p)
    if x is not None:
        return dict(ok=False, exc=x["t"], samples={}, jac=[])
    try:
        return dict(ok=True, exc="", samples={k: nums(v) for k, v in r[0].items()}, jac=nums(r[1]))
    except Exception:
        return dict(ok=False, exc="shape", samples={}, jac=[])


lat = cases()
for be in ["numpy", "jax"]:
    set_backend(be)
    m = xp(be)
    g = rng(f"c10-{be}")
    for i, c in enumerate(lat):
        cosmo = [NAMED[(i // 3) % 4], "FlatLambdaCDM", "FlatwCDM"][i % 3]
        p = pars(g, cosmo)
        shape = [(4,), (2, 2)][i % 2]
        host = {k: value(g, k, shape) for k in c["order"]}
        if not mine(i) or (be == "jax" and i % 4 and not THOROUGH):
            continue
        obj = CosmoMixin(cosmo_model=cosmo) if i % 5 else CosmoModel([lin], cosmo_model=cosmo)
        if i % 4 == 3:
            p = dict(p, lamb=2.0, unrelated=1.0)
        e = dict(op="convert", be=be, cosmo=cosmo, p=tree({k: v for k, v in p.items()}), order=c["order"], data={k: nums(v) for k, v in host.items()})
        e.update(conversion(obj, {k: m.asarray(v) for k, v in host.items()}, p))
        if {"luminosity_distance", "redshift"} <= set(host):
            z, x = attempt(obj.detector_frame_to_source_frame, dict(luminosity_distance=m.asarray(host["luminosity_distance"])), **p)
            e["zdist"] = nums(z[0]["redshift"]) if x is None else []
        out.event(e, group=4)
    out.flush()
    # histories of one population model, data kept or changed, cosmological parameters changing
    H = (40 if THOROUGH else 12) if be == "numpy" else (8 if THOROUGH else 3)
    for h in range(H):
        cosmo = [NAMED[(h // 3) % 4], "FlatLambdaCDM", "FlatwCDM"][h % 3]
        names = [["lin"], ["lin", "quad"], ["lin", "red"], ["quad", "red", "lin"]][h % 4]
        pool = []
        for _ in range(2):
            keys = ["mass_1_detector", "mass_ratio", ["luminosity_distance", "redshift"][int(g.integers(2))]] + (["mass_2_detector"] if g.uniform() < 0.5 else [])
            keys = [keys[j] for j in g.permutation(len(keys))]
            d = {k: value(g, k, (3,)) for k in keys}
            if "luminosity_distance" in d:
                d["luminosity_distance"] = np.exp(g.uniform(np.log(100), np.log(8000), 3))
            pool.append(d)
        ps = [dict(pars(g, cosmo), a=float(g.uniform(0.1, 2)), b=float(g.uniform(0.1, 2)), lamb=float(g.uniform(-2, 4))) for _ in range(3)]
        steps = [(int(g.integers(2)), int(g.integers(3))) for _ in range(6)]
        if not mine(h):
            continue
        comps = dict(lin=lin, quad=quad)
        use = lambda: [comps[n] if n in comps else PowerLawRedshift(z_max=2.3, cosmo_model=cosmo) for n in names]
        mod = CosmoModel(use(), cosmo_model=cosmo)
        ev = []
        for di, pi in steps:
            data = {k: m.asarray(v) for k, v in pool[di].items()}
            p = ps[pi]
            need = {k: v for k, v in p.items() if k in ("H0", "Om0", "w0") or (k == "a" and "lin" in names) or (k == "b" and "quad" in names) or (k == "lamb" and "red" in names)}
            e = dict(op="prob", be=be, cosmo=cosmo, models=names, p=tree(need), data={k: nums(v) for k, v in pool[di].items()})
            e["out"] = observe(mod.prob, data, **need)
            e.update(conversion(CosmoMixin(cosmo_model=cosmo), data, need))
            ev.append(e)
        out.scenario(f"history-{be}-{h}", ev, history=True)
out.close()
