"""C04: closed-form mass models."""
from vlib import *
from gwpopulation.models import mass as M
out = Out()
ONE = ["power_law_mass", "two_component_single", "three_component_single", "double_power_law_primary_mass", "double_power_law_peak_primary_mass"]


def call(fn, be, x, p, shape=None):
    m = xp(be)
    shape = shape if shape is not None else np.shape(next(iter(x.values())))
    conv = (lambda v: float(np.ravel(v)[0])) if shape == () else (lambda v: m.asarray(np.reshape(v, shape)))
    args = [conv(x["mass"])] if "mass" in x else [{k: conv(v) for k, v in x.items()}]
    o = observe(getattr(M, fn), *args, **p)
    out.event(dict(op="plain", fn=fn, be=be, p={k: num(float(v)) for k, v in p.items()}, x={k: nums(v) for k, v in x.items()}, sh=list(shape), out=o), group=6)


def near(g, i):
    """at the special index or next to it"""
    return 0.0 if (i // 4) % 2 else float(g.choice([-1, 1]) * 10 ** g.uniform(-5, -2.5))


def randp(g, i):
    mmin = float(g.uniform(1, 12))
    mmax = mmin + float(g.uniform(3, 90))
    p = dict(mmin=mmin, mmax=mmax, break_fraction=float(g.uniform(0.03, 0.97)), alpha=float(g.uniform(-5, 9)), beta=float(g.uniform(-5, 9)),
             alpha_1=float(g.uniform(-5, 9)), alpha_2=float(g.uniform(-5, 9)), lam=float(g.uniform(0, 1)), lam_1=float(g.uniform(0, 1)),
             mpp=float(g.uniform(5, 60)), sigpp=float(g.uniform(1, 12)), mpp_1=float(g.uniform(5, 60)), sigpp_1=float(g.uniform(1, 12)),
             mpp_2=float(g.uniform(5, 60)), sigpp_2=float(g.uniform(1, 12)))
    if i % 3 == 1:
        p["gaussian_mass_maximum"] = float(g.uniform(mmin + 3, 130))
    if i % 4 == 2:
        p["alpha"], p["alpha_1"] = 1.0 + near(g, i), 1.0 + near(g, i)
    if i % 4 == 3:
        p["beta"], p["alpha_2"] = -1.0 + near(g, i), 1.0 + near(g, i)
    return p


lat = cases()
SIG = {c["fn"]: sorted(c["p"]) for c in lat}
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c04-{be}")
    order = g.permutation(len(lat))
    if not THOROUGH:
        order = order[: 420 if be == "numpy" else 100]
    for i, j in enumerate(order):
        if not mine(i):
            continue
        c = lat[j]
        x = {k: np.array([f(v) for v in vs]) for k, vs in c["x"].items()}
        if not THOROUGH and len(x.get("mass_1", [])) > 60:
            sub = np.random.default_rng([SEED, int(j)]).permutation(len(x["mass_1"]))[:60]
            x = {k: v[sub] for k, v in x.items()}
        call(c["fn"], be, x, {k: f(v) for k, v in c["p"].items()})
    for i in range((600 if THOROUGH else 130) if be == "numpy" else (160 if THOROUGH else 26)):
        p = randp(g, i)
        fn = sorted(SIG)[i % len(SIG)]
        pp = {k: v for k, v in p.items() if k in SIG[fn]}
        shape = [(8,), (2, 4), (), (8, 1)][i % 4]
        n = int(np.prod(shape)) if shape else 1
        top = max(p["mmax"], p.get("gaussian_mass_maximum", 100))
        m1 = p["mmin"] + g.uniform(-0.03, 1.03, n) * (np.where(g.uniform(size=n) < 0.7, p["mmax"], top) - p["mmin"])
        m1 = np.maximum(m1, 0.3)
        if fn in ONE:
            x = dict(mass=m1)
        elif "ratio" in fn:
            lo = p["mmin"] / m1
            x = dict(mass_1=m1, mass_ratio=np.clip(lo + g.uniform(-0.1, 1.05, n) * (1 - lo), 0.01, None))
        else:
            x = dict(mass_1=m1, mass_2=p["mmin"] + np.maximum(g.uniform(-0.05, 1.1, n) * (m1 - p["mmin"]), 0.2 - p["mmin"]))
            x["mass_2"] = np.where(g.uniform(size=n) < 0.1, m1, x["mass_2"])
        if i % 5 == 4:      # integer typed masses and indices
            x = {k: v if k == "mass_ratio" else np.maximum(np.rint(v), 1).astype(int) for k, v in x.items()}
            pp = {k: int(np.rint(v)) if k[:4] in ("alph", "beta", "mpp", "mpp_") else v for k, v in pp.items()}
        if mine(i):
            call(fn, be, x, pp, shape)
out.close()
