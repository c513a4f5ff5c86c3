"""C09: redshift models."""
from vlib import *
from gwpopulation.models import redshift as R
out = Out()


def call(be, fn, cosmo, zmax, p, z, shape, default=False):
    m = xp(be)
    mod, err = attempt(getattr(R, fn), **({} if default else dict(z_max=zmax, cosmo_model=cosmo)))
    zz = m.asarray(np.reshape(z, shape))
    e = dict(op="eval", fn=fn, be=be, cosmo=cosmo, zmax=num(zmax), p={k: num(float(v)) for k, v in p.items()}, z=nums(z), sh=list(shape))
    if err is not None:
        e.update(out=err, norm=err, psi=err, psi0=err, dvc=err)
    else:
        warm(mod, dict(redshift=zz), p)
        e["norm"] = observe(mod.normalisation, dict(p))
        e["out"] = observe(mod, dict(redshift=zz), **p)
        e["psi"] = observe(mod.psi_of_z, zz, **p)
        e["psi0"] = observe(mod.psi_of_z, m.zeros(1), **p)
        e["dvc"] = observe(mod.dvc_dz, zz, **p)
    out.event(e, group=2)


lat = cases()
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c09-{be}")
    order = g.permutation(len(lat))
    if not THOROUGH:
        order = order[: 72 if be == "numpy" else 20]
    for i, j in enumerate(order):
        if mine(i):
            c = lat[j]
            call(be, c["fn"], c["cosmo"], f(c["zmax"]), {k: f(v) for k, v in c["p"].items()}, np.array([f(v) for v in c["z"]]), (7,))
    N = (200 if THOROUGH else 40) if be == "numpy" else (40 if THOROUGH else 8)
    NAMED = ["Planck15", "Planck15_LAL", "Planck13", "Planck18", "WMAP9", "WMAP7", "WMAP5", "WMAP3", "WMAP1"]
    for i in range(N):
        fn = ["PowerLawRedshift", "MadauDickinsonRedshift"][i % 2]
        default = i % 10 < 2
        cosmo = "Planck15" if default else [NAMED[(i // 3) % 9], "FlatLambdaCDM", "FlatwCDM"][i % 3]
        zmax = 2.3 if default else float(g.uniform(0.2, 8) if i % 6 != 4 else g.uniform(9, 20))
        p = dict(lamb=float(g.uniform(-6, 9))) if i % 2 == 0 else dict(gamma=float(g.uniform(-4, 6)), kappa=float(g.uniform(-3, 8)), z_peak=float(g.uniform(0.1, 5)))
        if cosmo.startswith("Flat"):
            p.update(H0=float(g.uniform(40, 100)), Om0=float(g.uniform(0.1, 0.8)))
        if cosmo == "FlatwCDM":
            p.update(w0=float(g.uniform(-1.5, -0.5)))
        z = zmax * g.uniform(0.01, 1.05, 6)
        if mine(i):
            call(be, fn, cosmo, zmax, p, z, [(6,), (2, 3)][i % 2], default)
    for i, cosmo in enumerate(["Planck15", "FlatLambdaCDM"]):      # integer typed redshifts and hyperparameters
        cp = dict(H0=70, Om0=0.3) if i else {}
        for k, (fn, p) in enumerate([("PowerLawRedshift", dict(lamb=-2)), ("PowerLawRedshift", dict(lamb=3)), ("MadauDickinsonRedshift", dict(gamma=-1, kappa=3, z_peak=2))]):
            if mine(i + k):
                call(be, fn, cosmo, 3, {**p, **cp}, np.array([1, 2, 3, 4]), (4,))
    for i in range(12):
        lamb, t, zm = float(g.uniform(-5, 6)), float(g.uniform(0.05, 10)), float(g.uniform(0.3, 5))
        if mine(i):
            if i < 3:
                out.event(dict(op="four", be=be, lamb=num(lamb), time=num(t), zmax="2.3", out=observe(R.total_four_volume, lamb, t)))
            else:
                out.event(dict(op="four", be=be, lamb=num(lamb), time=num(t), zmax=num(zm), out=observe(R.total_four_volume, lamb=lamb, analysis_time=t, max_redshift=zm)))
out.close()
