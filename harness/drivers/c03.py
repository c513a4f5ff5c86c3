"""C03: elementary densities."""
from vlib import *
from gwpopulation import utils

FN = dict(powerlaw=utils.powerlaw, truncnorm=utils.truncnorm, beta_dist=utils.beta_dist,
          von_mises=utils.von_mises, gauss2d=utils.unnormalized_2d_gaussian)
out = Out()


ORDER = dict(powerlaw=["alpha", "high", "low"], truncnorm=["mu", "sigma", "high", "low"], beta_dist=["alpha", "beta", "scale"],
             von_mises=["mu", "kappa"], gauss2d=["mu_x", "mu_y", "sigma_x", "sigma_y", "covariance"])


def call(fn, be, x, p, y=None, positional=False, npos=0):
    """p: name -> scalar or array; logs the parameters broadcast to the points."""
    m = xp(be)
    xb = np.broadcast_arrays(np.asarray(x, float), *[np.asarray(v, float) for v in p.values()],
                             *([np.asarray(y, float)] if y is not None else []))
    shape = xb[0].shape
    pp = {k: nums(np.broadcast_to(np.asarray(v, float), shape)) for k, v in p.items()}
    conv = (lambda v: v) if np.ndim(x) == 0 and not positional else (lambda v: m.asarray(v) if np.ndim(v) else v)
    args = [conv(x)] + ([conv(y)] if y is not None else [])
    kw = {k: conv(v) for k, v in p.items()}
    args += [kw.pop(k) for k in ORDER[fn][:npos]]     # the first npos parameters by position
    o = observe(FN[fn], *args, **kw)
    e = dict(fn=fn, be=be, x=nums(np.broadcast_to(np.asarray(x, float), shape)), sh=list(shape), p=pp, out=o)
    if y is not None:
        e["y"] = nums(np.broadcast_to(np.asarray(y, float), shape))
    out.event(e)


lattice = cases()
g = rng("c03")
for be in ["numpy", "jax"]:
    set_backend(be)
    for i, c in enumerate(lattice):
        if not mine(i):
            continue
        p = {k: f(v) for k, v in c["p"].items()}
        x = np.array([f(v) for v in c["x"]])
        if c["fn"] == "gauss2d":
            y = p["mu_y"] + p["sigma_y"] * np.linspace(-2, 3, len(x))
            call(c["fn"], be, p["mu_x"] + p["sigma_x"] * np.tile([1, -1, 2.5, -0.3, 0], 10)[: len(x)], p, y)
            call(c["fn"], be, x, p, y)
        else:
            call(c["fn"], be, x, p)
        if i % 7 == 0:
            for v in x[:4]:
                if c["fn"] != "gauss2d":
                    call(c["fn"], be, float(v), p)
    # random points and parameters, vector valued parameters, shapes
    n = 400 if THOROUGH else 60
    for i in range(n):
        shape = [(7,), (2, 3), (1,), (3, 1, 2)][i % 4]
        vec = i % 3 == 0
        u = (lambda a, b: g.uniform(a, b, shape)) if vec else (lambda a, b: float(g.uniform(a, b)))
        lo = u(0.05, 10)
        hi = lo * u(1.1, 50)
        x = lo * 0.8 + g.uniform(0, 1.2, shape) * (hi - lo)
        pl = dict(alpha=u(-6, 6) if i % 5 else -1.0, low=lo, high=hi)
        mu = u(-5, 15)
        tn = dict(mu=mu, sigma=u(0.2, 6), low=lo, high=hi)
        sc = u(0.3, 2)
        bd = dict(alpha=u(0.3, 12), beta=u(0.3, 12), scale=sc)
        vm = dict(mu=u(-3, 3), kappa=u(0, 60))
        gg = dict(mu_x=u(-1, 1), mu_y=u(-1, 1), sigma_x=u(0.1, 2), sigma_y=u(0.1, 2), covariance=u(-0.97, 0.97))
        xb = g.uniform(-0.1, 1.1, shape) * sc
        xv = g.uniform(-3.2, 3.2, shape)
        y = g.uniform(-2, 2, shape)
        if mine(i):
            call("powerlaw", be, x, pl)
            call("truncnorm", be, x, tn)
            call("beta_dist", be, xb, bd)
            call("von_mises", be, xv, vm)
            call("gauss2d", be, xv, gg, y)
            k = i % 4
            call("powerlaw", be, x, pl, npos=k)
            call("truncnorm", be, x, tn, npos=k + 1)
            call("beta_dist", be, xb, bd, npos=k)
            call("von_mises", be, xv, dict(vm, kappa=u(0, 4000)), npos=k // 2)
            call("powerlaw", be, x, dict(pl, alpha=-1 + u(-2e-4, 2e-4)))
            call("gauss2d", be, xv, gg, y, npos=k)
    # deep tails: the interval is many standard deviations from the mean
    for i, (mu, sig, lo, hi) in enumerate([(0, 1, 5, 6), (0, 1, 20, 21), (0, 1, -21, -20), (100, 2, 2, 60),
                                           (-50, 3, 0, 1), (1, 0.05, -1, 1), (0, 1, 8, 80), (3, 0.5, -90, 0)]):
        if mine(i):
            call("truncnorm", be, np.linspace(lo - 0.5, hi + 0.5, 12), dict(mu=float(mu), sigma=float(sig), low=float(lo), high=float(hi)))
            call("truncnorm", be, np.array([lo, hi, 0.5 * (lo + hi), 0.9 * lo + 0.1 * hi], float), dict(mu=float(mu), sigma=float(sig), low=float(lo), high=float(hi)))
    # integer typed inputs
    if mine(0):
        call("powerlaw", be, np.array([1.0, 2.0, 3.0]), dict(alpha=-2, low=1, high=4))
        call("truncnorm", be, np.array([-0.5, 0.0, 0.25]), dict(mu=0, sigma=1, low=-1, high=1))
        call("beta_dist", be, np.array([0.2, 0.4]), dict(alpha=2, beta=3, scale=1))
        for al in (-3, -2, -1, 0, 1, 2, np.array([-3, -1, 0, 2])):      # integer points too
            call("powerlaw", be, np.array([2, 3, 7, 11]), dict(alpha=al, low=2, high=9))
            call("powerlaw", be, np.array([2, 3, 7, 11]), dict(alpha=al, low=2.5, high=9.5), npos=2)
        call("truncnorm", be, np.array([-1, 0, 1, 2]), dict(mu=0, sigma=2, low=-1, high=1))
        call("beta_dist", be, np.array([0, 1, 2, 3]), dict(alpha=2, beta=3, scale=2))
        call("beta_dist", be, np.array([0, 1, 2, 3]), dict(alpha=1, beta=1, scale=2))
        call("von_mises", be, np.array([0, 1, 2, 3]), dict(mu=1, kappa=2))
        call("gauss2d", be, np.array([0, 1, 2]), dict(mu_x=1, mu_y=0, sigma_x=2, sigma_y=1, covariance=0.5), np.array([1, 1, -1]))
    # domain of the named parameters
    bad = [("powerlaw", dict(alpha=1.5, high=3.0, low=-0.5)), ("powerlaw", dict(alpha=-2.0, high=3.0, low=-1e-9)),
           ("truncnorm", dict(mu=0.0, sigma=0.0, low=-1.0, high=1.0)), ("truncnorm", dict(mu=0.0, sigma=-2.0, low=-1.0, high=1.0)),
           ("beta_dist", dict(alpha=0.0, beta=1.0, scale=1.0)), ("beta_dist", dict(alpha=2.0, beta=-1.0, scale=1.0)),
           ("beta_dist", dict(alpha=2.0, beta=0.0, scale=1.0)), ("beta_dist", dict(alpha=-2.0, beta=2.0, scale=1.0)),
           ("beta_dist", dict(alpha=2.0, beta=2.0, scale=0.0)), ("beta_dist", dict(alpha=2.0, beta=2.0, scale=-1.0)),
           ("powerlaw", dict(alpha=2.0, high=3.0, low=np.array([0.2, -0.1, 0.3]))),
           ("truncnorm", dict(mu=0.0, sigma=np.array([1.0, 0.0, 2.0]), low=-1.0, high=1.0)),
           ("beta_dist", dict(alpha=np.array([1.0, -1.0, 2.0]), beta=2.0, scale=1.0)),
           ("beta_dist", dict(alpha=2.0, beta=np.array([1.0, 3.0, 0.0]), scale=1.0)),
           ("beta_dist", dict(alpha=2.0, beta=2.0, scale=np.array([1.0, 3.0, -2.0])))]
    if mine(1 % SHARDS):
        # the condition on a keyword holds whatever the form of the other parameters
        for fn, p, k in [("powerlaw", dict(alpha=1.5, high=3.0, low=-0.5), 1), ("powerlaw", dict(alpha=1.5, high=3.0, low=-0.5), 2), ("beta_dist", dict(alpha=2.0, beta=-1.0, scale=1.0), 1),
                         ("beta_dist", dict(alpha=2.0, beta=2.0, scale=-1.0), 2), ("beta_dist", dict(alpha=2.0, beta=2.0, scale=0.0), 1), ("truncnorm", dict(mu=0.0, sigma=-2.0, low=-1.0, high=1.0), 1)]:
            call(fn, be, np.array([0.3, 0.5, 0.7]), p, npos=k)
        for fn, p in bad:
            call(fn, be, np.array([0.3, 0.5, 0.7]), p)


def target(x, a=1, b=2, c=3):
    return x + 10 * np.sum(a) + 100 * np.sum(b) + 1000 * np.sum(c)


import operator
for be in ["numpy", "jax"]:
    set_backend(be)
    for i in range(120 if THOROUGH else 60):
        conds, given = {}, {}
        for k in "abc":
            op, v = str(g.choice(["gt", "ge", "lt", "le", "eq", "even"])), int(g.integers(0, 4))
            if g.integers(3):
                conds[k] = dict(op=op, v=num(v), c=(lambda x: bool(np.all(np.asarray(x) % 2 == 0))) if op == "even" else (getattr(operator, op), v))
            if g.integers(3):
                given[k] = g.integers(0, 5, 2).astype([int, float][i % 2]) if op != "even" and g.integers(3) == 0 else [int, float][i % 2](g.integers(0, 5))
        args = [7.0]
        if i % 4 == 3 and "a" in given:                  # given by position: not named
            args.append(given.pop("a"))
        if mine(i):
            fn, x = attempt(lambda: utils.apply_conditions({k: c["c"] for k, c in conds.items()})(target))
            out.event(dict(fn="conditions", be=be, conds={k: dict(op=c["op"], v=c["v"]) for k, c in conds.items()}, kw={k: nums(v) for k, v in given.items()},
                           named=getattr(fn, "__name__", "") == "target", out=x or observe(fn, *args, **given), plain=observe(target, *args, **given)))
out.close()
