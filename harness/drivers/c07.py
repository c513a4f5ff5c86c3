"""C07: parametric spin models."""
from vlib import *
from gwpopulation.models import spin as S
out = Out()
OPT = dict(iid_spin_magnitude_beta=["amax", "alpha_chi", "beta_chi"], iid_spin_orientation_gaussian_isotropic=["mu_spin"],
           independent_spin_orientation_gaussian_isotropic=["mu_1", "mu_2"])


def model(fn):
    m = getattr(S, fn)
    return m() if isinstance(m, type) else m


def call(be, fn, x, p, shape=None):
    m = xp(be)
    shape = shape if shape is not None else np.shape(next(iter(x.values())))
    d = {k: m.asarray(np.reshape(v, shape)) if shape else float(np.ravel(v)[0]) for k, v in x.items()}
    mod, err = attempt(model, fn)
    if err is None:
        warm(mod, d, p)
    o = observe(mod, d, **p) if err is None else err
    ev = dict(op="eval", fn=fn, be=be, p={k: num(float(v)) for k, v in p.items()}, x={k: nums(v) for k, v in x.items()}, sh=list(shape), out=o)
    out.event(ev, group=6)
    return ev


def same(be, x, p, q, iid, ind):
    m = xp(be)
    d = {k: m.asarray(v) for k, v in x.items()}
    out.event(dict(op="same", fn=iid, be=be, p=tree(p), x={k: nums(v) for k, v in x.items()}, out=observe(model(iid), d, **p), ind=observe(model(ind), d, **q)))


lat = cases()
NAMES = {c["fn"]: (sorted(c["p"]), sorted(c["x"])) for c in lat}
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c07-{be}")
    order = g.permutation(len(lat))
    if be == "jax" and not THOROUGH:
        order = order[:70]
    for i, j in enumerate(order):
        if mine(i):
            c = lat[j]
            call(be, c["fn"], {k: np.array([f(v) for v in vs]) for k, vs in c["x"].items()}, {k: f(v) for k, v in c["p"].items()})
    N = (800 if THOROUGH else 160) if be == "numpy" else (160 if THOROUGH else 32)
    for i in range(N):
        fn = sorted(NAMES)[i % len(NAMES)]
        names, coords = NAMES[fn]
        p = {}
        for n in names:
            p[n] = float(g.uniform(0, 1) if n == "xi_spin" else g.uniform(0.3, 1) if n.startswith("amax") else g.uniform(0.6, 9) if n[:5] in ("alpha", "beta_")
                         else g.uniform(0.08, 2) if n.startswith("sigma") else g.uniform(-0.9, 0.9) if n == "spin_covariance" else g.uniform(-0.1, 1.1) if n == "mu_chi_p" else g.uniform(-1, 1))
        for n in OPT.get(fn, []):
            if g.uniform() < 0.3:
                p.pop(n)
        shape = [(6,), (2, 3), (), (3, 1, 2)][(i // len(NAMES)) % 4]
        n = int(np.prod(shape)) if shape else 1
        x = {k: g.uniform(0, 1.05, n) if k[0] == "a" else g.uniform(-1, 1, n) if k[0] == "c" and k[1] == "o" else g.uniform(-1.1, 1.1, n) if k == "chi_eff" else g.uniform(-0.1, 1.1, n) for k in coords}
        if mine(i):
            call(be, fn, x, p, shape)
    for i in range(24 if THOROUGH else 8):
        a, b, mx, xi, sg, mu = float(g.uniform(0.5, 6)), float(g.uniform(0.5, 6)), float(g.uniform(0.4, 1)), float(g.uniform(0, 1)), float(g.uniform(0.1, 3)), float(g.uniform(-1, 1))
        x = dict(a_1=g.uniform(0, 1, 7), a_2=g.uniform(0, 1, 7), cos_tilt_1=g.uniform(-1, 1, 7), cos_tilt_2=g.uniform(-1, 1, 7))
        if mine(i):
            same(be, x, dict(amax=mx, alpha_chi=a, beta_chi=b), dict(alpha_chi_1=a, alpha_chi_2=a, beta_chi_1=b, beta_chi_2=b, amax_1=mx, amax_2=mx),
                 "iid_spin_magnitude_beta", "independent_spin_magnitude_beta")
            same(be, x, dict(xi_spin=xi, sigma_spin=sg, mu_spin=mu), dict(xi_spin=xi, sigma_1=sg, sigma_2=sg, mu_1=mu, mu_2=mu),
                 "iid_spin_orientation_gaussian_isotropic", "independent_spin_orientation_gaussian_isotropic")
out.close()
