"""C17: selection from injections."""
from lk import *
from gwpopulation.models.redshift import PowerLawRedshift, MadauDickinsonRedshift, total_four_volume
out = Out()


def pair(fn, *a):
    r, x = attempt(fn, *a)
    if x:
        return x, x
    if not isinstance(r, tuple) or len(r) != 2:
        return dict(k="other", t=type(r).__name__), dict(k="other", t="none")
    return seen(r[0]), seen(r[1])


def steps(vt, vm, p, D):
    """all operations at one point"""
    ev = []
    mu, var = pair(vt.detection_efficiency, dict(p))
    ev.append(dict(op="eff", p=tree(p), mu=mu, var=var))
    mu, var = pair(vt, dict(p))
    ev.append(dict(op="call", p=tree(p), mu=mu, var=var))
    ev.append(dict(op="marg", p=tree(p), mu=observe(vm, dict(p))))
    return ev


class OwnRedshift(PowerLawRedshift):
    """a redshift model defined by the user"""
    def psi_of_z(self, redshift, **parameters):
        return (1 + redshift) ** (0.5 * parameters["lamb"])


def single(dataset, a):
    return a * dataset["x"]


lattice = cases()
for be in ["numpy", "jax"]:
    set_backend(be)
    m = xp(be)
    g = rng(f"c17-{be}-{SHARD}")
    sub = [c for i, c in enumerate(lattice) if mine(i)]
    if not THOROUGH:
        edge = [c for c in sub if c["total"] == "4" and c["n"] in "12" and set(c["w"]) <= {"0", "0.5", "1"}]      # on the threshold, among others
        sub = edge[:40] + [sub[i] for i in g.permutation(len(sub))[: 330 if be == "numpy" else 60]]
    for i, c in enumerate(sub):
        w = [f(v) for v in c["w"]]
        data = dict(x=m.asarray(np.array(w) * 2.0), prior=m.asarray(np.full(len(w), 2.0)))
        if c["given"]:
            data["total_generated"] = int(c["total"])
        enforce = bool(i % 3)
        kw = dict(n_events=float(c["n"])) if c["n"] != "inf" or i % 2 else {}
        if not enforce or i % 2:
            kw["enforce_convergence"] = enforce
        model = [single, [single], Model([single])][i % 3]
        vt = ResamplingVT(model, data, **kw)
        kw.pop("enforce_convergence", None)
        vm = ResamplingVT([single], data, marginalize_uncertainty=True, **kw)
        D = dict(model="col", m=len(w), inj=dict(x=nums(data["x"]), prior=nums(data["prior"])), total=c["total"], nev=c["n"], enforce=enforce)
        out.scenario(f"{be}-{SHARD}-l{i}", steps(vt, vm, dict(a=1.0), D) + steps(vt, vm, dict(a=0.37), D), D=D, history=True)
    for i in range((200 if THOROUGH else 40) if be == "numpy" else (60 if THOROUGH else 12)):
        if not mine(i):
            continue
        inj = injections(g, int(g.integers(3, 60)), total=bool(i % 2))
        zmodel = None
        name = ["lin", "prod", "prod"][i % 3]
        models = model_of(name, be, "function")[0]
        models = [models] if callable(models) and not isinstance(models, Model) else list(models.models)
        time = [3.0, None, 0.25][(i + i // 3) % 3]
        D = dict(inj=None, m=len(inj["x"]), total=num(inj.get("total_generated", len(inj["x"]))), model=name)
        zpars = {}
        if i % 3 == 2:
            zmodel = [PowerLawRedshift(z_max=1.9), MadauDickinsonRedshift(z_max=2.3), PowerLawRedshift(z_max=2.3, cosmo_model="FlatLambdaCDM"), OwnRedshift(z_max=1.2)][(i // 3) % 4]
            models.insert(int(g.integers(len(models) + 1)), zmodel)
            inj["redshift"] = g.uniform(0.01, 2.2, len(inj["x"]))
            zpars = {0: dict(lamb=2.1), 1: dict(gamma=2.7, kappa=5.0, z_peak=1.9), 2: dict(lamb=-1.0, H0=70.0, Om0=0.3), 3: dict(lamb=2.5)}[(i // 3) % 4]
            D["model"] = "zprod"
        data = {k: m.asarray(v) if np.ndim(v) else v for k, v in inj.items()}
        if time is not None:
            data["analysis_time"] = time
        D["time"] = num(1 if time is None else time)
        D["inj"] = {k: nums(inj[k]) for k in ["x", "y", "prior"]}
        if zmodel is not None:
            D["inj"]["pz"] = nums(zmodel(dict(redshift=data["redshift"]), **zpars))
        mu0, var0 = ResamplingVT(Model(models), data).detection_efficiency(dict(a=1.0, b=0.5, **zpars))
        crit = float(mu0) ** 2 / (4 * float(var0)) if float(var0) > 0 else 1.0
        nev = [crit * 0.9, crit * 1.1, 3.0, np.inf][i % 4]
        D["nev"] = num(nev)
        D["enforce"] = bool(i % 5)
        vt = ResamplingVT(Model(models), data, n_events=nev, enforce_convergence=D["enforce"])
        vm = ResamplingVT(models if len(models) > 1 else models[0], data, n_events=nev, marginalize_uncertainty=True)
        ev = []
        for a, b in [(1.0, 0.5), (0.3, 1.9), (1.0, 0.5)]:
            p = dict(a=a, b=b, **zpars)
            ev += steps(vt, vm, p, D)
            # surveyed volume
            o = observe(vt.surveyed_hypervolume, dict(p))
            if zmodel is not None:
                norm, tol = num(zmodel.normalisation(dict(p))), "1e-10"
            else:
                norm, tol = num(PowerLawRedshift(z_max=2.3).normalisation(dict(lamb=0))), "1e-5"
            ev.append(dict(op="hyper", p=tree(p), out=o, norm=norm, tol=tol))
        # the volume follows every hyperparameter of the redshift model
        for k in list(zpars)[::-1] + list(zpars)[:1]:
            p = dict(a=1.0, b=0.5, **{**zpars, k: zpars[k] * float(g.uniform(0.6, 0.9))})
            new = type(zmodel)(z_max=zmodel.z_max, cosmo_model=zmodel.cosmo_model)
            ev.append(dict(op="hyper", p=tree(p), out=observe(vt.surveyed_hypervolume, dict(p)), norm=num(new.normalisation(dict(p))), tol="1e-10"))
        out.scenario(f"{be}-{SHARD}-r{i}", ev, D=D, history=True)
out.close()
