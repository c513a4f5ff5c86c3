"""C05: smoothed mass models."""
from vlib import *
from gwpopulation.models import mass as M
out = Out()
PRIM = dict(SinglePeakSmoothedMassDistribution="two_component_single", MultiPeakSmoothedMassDistribution="three_component_single",
            BrokenPowerLawSmoothedMassDistribution="double_power_law_primary_mass", BrokenPowerLawPeakSmoothedMassDistribution="double_power_law_peak_primary_mass")


def call(be, fam, c, x, p, shape=None, how="kw"):
    m = xp(be)
    shape = shape if shape is not None else np.shape(x["mass_1"])
    if how == "default":
        mod, err = attempt(getattr(M, fam))
    elif how == "positional":
        mod, err = attempt(getattr(M, fam), c["mmin"], c["mmax"], (c["nm"], c["nq"]))
    else:
        mod, err = attempt(getattr(M, fam), mmin=c["mmin"], mmax=c["mmax"], normalization_shape=(c["nm"], c["nq"]), cache=how != "nocache")
    d = {k: m.asarray(np.reshape(v, shape)) for k, v in x.items()}
    if err is None:
        warm(mod, {k: m.flip(v) for k, v in d.items()} if how == "nocache" else d, p)
    o = observe(mod, d, **p) if err is None else err
    out.event(dict(op="smooth", fn=fam, be=be, cfg=dict(mmin=num(c["mmin"]), mmax=num(c["mmax"]), nm=c["nm"], nq=c["nq"], primary=PRIM[fam]),
                   p={k: num(float(v)) for k, v in p.items()}, x={k: nums(v) for k, v in x.items()}, sh=list(shape), out=o), group=2)


lat = cases()
NAMES = {c["fam"]: sorted(c["p"]) for c in lat}
FAMS = sorted(PRIM)
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c05-{be}")
    order = g.permutation(len(lat))
    if not THOROUGH:
        order = order[: 150 if be == "numpy" else 24]
    for i, j in enumerate(order):
        if not mine(i):
            continue
        c = lat[j]
        x = {k: np.array([f(v) for v in vs]) for k, vs in c["x"].items()}
        sub = np.random.default_rng([SEED, int(j)]).permutation(len(x["mass_1"]))[: 60 if THOROUGH else 24]
        x = {k: v[sub] for k, v in x.items()}
        cfg = {k: float(v) if k[0] == "m" else v for k, v in c["cfg"].items() if k != "primary"}
        p = {k: f(v) for k, v in c["p"].items()}
        call(be, c["fam"], cfg, x, p, [(24,), (4, 6), (2, 3, 4)][i % 3 if be == 'numpy' else 0] if len(sub) == 24 else None, ["kw", "nocache", "positional"][i % 3])
    N = (500 if THOROUGH else 90) if be == "numpy" else (120 if THOROUGH else 18)
    for i in range(N):
        fam = FAMS[i % 4]
        if i >= N - 4:
            cfg = dict(mmin=2, mmax=100, nm=1000, nq=500)
            how = "default"
        else:
            a = float(g.uniform(1, 6)) if i % 3 else 2.0
            cfg = dict(mmin=a, mmax=a + float(g.uniform(20, 150)) if i % 2 else 100.0, nm=int(g.integers(6, 40)), nq=int(g.integers(5, 40)))
            if be == "jax":
                cfg.update(nm=24, nq=15)
            how = "kw"
        a, b = cfg["mmin"], cfg["mmax"]
        mmin = a + float(g.uniform(0, 0.15)) * (b - a) * (i % 5 > 0)
        mmax = mmin + float(g.uniform(0.2, 1)) * (b - mmin) if i % 5 else float(b)
        p = dict(mmin=mmin, mmax=mmax, delta_m=float(g.choice([0, g.uniform(0.2, 3), g.uniform(2, 20), g.uniform(0.5, 8)], p=[.1, .3, .3, .3])), beta=float(g.uniform(-4, 7)),
                 alpha=float(g.uniform(-3, 7)), alpha_1=float(g.uniform(-3, 7)), alpha_2=float(g.uniform(-3, 7)), break_fraction=float(g.uniform(0.05, 0.95)),
                 lam=float(g.uniform(0, 1)), lam_1=float(g.uniform(0, 1)), mpp=float(g.uniform(10, 50)), sigpp=float(g.uniform(1, 10)),
                 mpp_1=float(g.uniform(10, 50)), sigpp_1=float(g.uniform(1, 10)), mpp_2=float(g.uniform(10, 50)), sigpp_2=float(g.uniform(1, 10)))
        n = 3 if how == "default" else 8
        top = np.where(g.uniform(size=n) < 0.7, mmax, b)
        m1 = mmin + g.uniform(-0.02, 1.02, n) ** 2 * (top - mmin)
        lo = mmin / m1
        q = np.clip(lo + g.uniform(-0.05, 1.03, n) * (1 - lo), 0.001, None)
        if mine(i):
            call(be, fam, cfg, dict(mass_1=m1, mass_ratio=q), {k: p[k] for k in NAMES[fam]}, (n,) if n == 3 or i % 2 else (2, 4), how)
out.close()
