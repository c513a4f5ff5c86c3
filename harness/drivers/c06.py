"""C06: evaluation histories of model objects, replayed with the value of a fresh object."""
from zoo import *
out = Out()
SPL = ["SplineSpinMagnitudeIdentical", "SplineSpinTiltIdentical", "Spline"]
FREE = ["PowerLawRedshift", "MadauDickinsonRedshift", "GaussianChiEffChiP", "CosmoModel"]
SHAPES = dict(A=(6,), B=(6,), C=(4,), D=(2, 5))
NAMES = dict(PowerLawRedshift=["lamb"], MadauDickinsonRedshift=["gamma", "kappa", "z_peak"], CosmoModel=["a"],
             GaussianChiEffChiP=["mu_chi_eff", "sigma_chi_eff", "mu_chi_p", "sigma_chi_p", "spin_covariance"],
             InterpolatedPowerlaw=["alpha", "beta", "mmin", "mmax", "delta_m"],
             SinglePeakSmoothedMassDistribution=["alpha", "mmin", "mmax", "lam", "mpp", "sigpp", "beta", "delta_m"],
             MultiPeakSmoothedMassDistribution=["alpha", "mmin", "mmax", "lam", "lam_1", "mpp_1", "sigpp_1", "mpp_2", "sigpp_2", "beta", "delta_m"],
             BrokenPowerLawSmoothedMassDistribution=["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "beta", "delta_m"],
             BrokenPowerLawPeakSmoothedMassDistribution=["alpha_1", "alpha_2", "mmin", "mmax", "break_fraction", "lam", "mpp", "sigpp", "beta", "delta_m"])
COSMO = dict(FlatLambdaCDM=["H0", "Om0"], FlatwCDM=["H0", "Om0", "w0"], Planck15=[])


class Obj:
    def __init__(self, o, r, m_, be):
        fam = o["fam"]
        c = dict(fam=fam, n=5, reg=bool(r.integers(2)), cosmo=str(r.choice(list(COSMO))), kind=str(r.choice(["cubic", "linear"])))
        if fam in SMOOTH or fam == "InterpolatedPowerlaw":
            c.update(mmin=float(r.choice([3.0, 2.0])), mmax=float(r.choice([80.0, 100.0])))
        elif fam in RANGE:
            c.update(lo=RANGE[fam][0], hi=float(r.choice([RANGE[fam][1], RANGE[fam][1] * .95])))
        elif fam in FREE[:2]:
            c["zmax"] = float(r.choice([2.3, 1.5]))
        self.c, self.cache, self.m_, self.r, self.be = c, bool(o["cache"]), m_, r, be
        self.m = self.make(5)
        self.data = {k: self.dataset(sh) for k, sh in SHAPES.items()}
        names = NAMES.get(fam, []) + (COSMO[c["cosmo"]] if fam in FREE and fam != "GaussianChiEffChiP" else [])
        self.par = {(p, n): params_of(c, names, r, n) for p in (1, 2) for n in (5, 7)}
        if r.uniform() < .25 and "delta_m" in names:
            self.par[2, 5]["delta_m"] = self.par[2, 7]["delta_m"] = 0.0
        # points that differ in one hyperparameter only
        for q in (3, 4) if r.uniform() < .5 else (2, 3, 4):
            for n in (5, 7):
                new = params_of(c, names, r, n)
                diff = [k for k in sorted(new) if new[k] != self.par[1, n][k]]
                few = [k for k in ("beta", "mmin", "delta_m") if k in diff]
                k = str(r.choice(few if few and r.uniform() < .3 else diff)) if diff else None
                self.par[q, n] = {**self.par[1, n], **({k: new[k]} if k else {})}
        self.nodes = 5

    def dataset(self, sh):
        d = dataset_of(self.c, self.r, sh)
        return {k: self.m_.asarray(v) for k, v in d.items()}

    def make(self, n):
        return build({**self.c, "n": n}, cache=self.cache, grid=(30, 20))

    def call(self, m, d, p, jit=False):
        f = m.prob if self.c["fam"] == "CosmoModel" else m
        p = {k: p[k] for k in sorted(p, key=lambda k: hash(k) % 97)}
        if jit:
            import jax
            return jax.jit(lambda q: f(d, **q))(p)
        return f(d, **p)

    def names(self, m):
        return sorted(str(k) for k in m.variable_names) if hasattr(m, "variable_names") else []


def replay(be, tag, i, objs, hist):
    m_ = xp(be)
    r = np.random.default_rng([SEED, i, be == "jax", len(hist)])
    kinds = [SMOOTH, SPL, FREE]
    objs = [dict(o, fam=str(r.choice(next((k for k in kinds if o["fam"] in k), [o["fam"]])))) for o in objs]
    if r.uniform() < .3 and objs[0]["cache"] == objs[1]["cache"] and any(objs[0]["fam"] in k and objs[1]["fam"] in k for k in kinds):
        objs[1] = objs[0]
    w = [Obj(o, r, m_, be) for o in objs]
    ev = []
    for h in hist:
        x = w[h["i"] - 1]
        d = x.data[h["d"]]
        if r.uniform() < .3:                         # equal values in new objects
            d = {k: m_.asarray(np.array(v)) for k, v in d.items()}
        p = dict(x.par[h["p"], h["n"]])
        e = dict(h)
        if h["op"] == "fail":
            if not p:
                continue
            k = str(r.choice(sorted(p)))
            if x.c["fam"] in SMOOTH and be == "numpy" and r.uniform() < .5:
                p["mmin"] = 1.0
            else:
                p.pop(k)
            if k.startswith(("rms", "mmin", "mmax", "delta_m")) and k not in p and x.c["fam"] in SMOOTH + ["InterpolatedPowerlaw"]:
                continue                              # these have defaults in some of the models
            e["out"] = observe(x.call, x.m, d, p)
        else:
            # splines fix their nodes in a first evaluation outside of compiled code
            jit = be == "jax" and r.uniform() < .35 and (x.c["fam"] not in RANGE or any(y["op"] == "eval" and y["i"] == h["i"] and y["n"] == h["n"] for y in ev))
            e["out"] = observe(x.call, x.m, d, p, jit)
            e["fresh"] = observe(x.call, x.make(h["n"]), d, dict(p))
            x.nodes = h["n"]
        ev.append(e)
        if h["n"] == 7 or r.uniform() < .1:
            ev.append(dict(op="config", i=h["i"], d="-", n=h["n"], names=x.names(x.m), freshnames=x.names(x.make(h["n"]))))
    out.scenario(f"{tag}-{be}-{i}", ev, D=dict(obj=objs), history=True)


def randhist(g, objs, n):
    h, nodes = [], [5, 5]
    home = [str(g.choice(list(SHAPES))) for _ in objs]
    for _ in range(n):
        i = int(g.integers(2))
        fail = g.uniform() < .12
        if not fail and objs[i]["fam"] in SPL and nodes[i] == 5 and g.uniform() < .1:
            nodes[i] = 7
            home[i] = str(g.choice(list(SHAPES)))
        d = home[i] if g.uniform() < .6 else str(g.choice(list(SHAPES)))
        if objs[i]["fam"] in SPL + ["InterpolatedPowerlaw"]:
            d = home[i]
        h.append(dict(op="fail" if fail else "eval", i=i + 1, d=d, p=int(g.choice([1, 1, 2, 3, 4])), n=nodes[i]))
    return h


lat = cases()
REP = [dict(fam=f, cache=c) for f, c in [(SMOOTH[0], True), (SMOOTH[0], True), (SMOOTH[0], False), (SPL[0], False), (FREE[0], False), ("InterpolatedPowerlaw", False)]]
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c06-{be}")
    if be == "numpy":
        pick = g.permutation(len(lat))[: 12000 if THOROUGH else 1200]
        long = 1500 if THOROUGH else 200
    else:
        pick = g.permutation(len(lat))[: 150 if THOROUGH else 10]
        long = 80 if THOROUGH else 14
    for i, j in enumerate(pick):
        if mine(i):
            replay(be, "tlc", int(j), lat[j]["obj"], lat[j]["hist"])
    for i in range(long):
        q = np.random.default_rng([SEED, 77, i, be == "jax"])
        objs = [REP[int(q.integers(len(REP)))] for _ in range(2)]
        if mine(i):
            replay(be, "long", 10 ** 6 + i, objs, randhist(q, objs, 10 if be == "numpy" else 6))
out.close()
