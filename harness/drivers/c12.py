"""C12: rate likelihood and rate posterior."""
from lk import *
out = Out()
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c12-{be}-{SHARD}")
    for i in range((300 if THOROUGH else 48) if be == "numpy" else (120 if THOROUGH else 20)):
        if not mine(i):
            continue
        lnev = None if i % 2 else list(g.normal(size=3))
        lk, D = make(g, be, kind="rate", n_events=3 if lnev else None, lnev=lnev)
        ev = [evaluate(lk, D, point(g, D), be) for j in range(4)]
        for j in range(2):
            p = point(g, D)
            ev.append(dict(op="rate", p=tree(p), hyper="none", out=[num(lk.generate_rate_posterior_sample(dict(p))) for _ in range(3)]))
        # same data and hyperparameters at several rates, around the maximum too
        p = point(g, D)
        for r in [0.01, 1, 3.5, 500]:
            ev.append(evaluate(lk, D, {**p, "rate": float(r)}, be))
        out.scenario(f"{be}-{SHARD}-{i}", ev, D=D, history=True)
    # rate posterior of the marginalised likelihood
    n = 4000 if THOROUGH else 1500
    for i in range(16 if be == "numpy" else 6):
        if not mine(i):
            continue
        lk, D = make(g, be, kind="marg", n_events=[1, 2, 5, 9][i % 4], sel=["plain", "pair", "inj"][i % 3],
                     conv=["id", "double", "replace"][(i + i // 4) % 3], equal=True)
        if D["sel"]["k"] == "inj" and i % 2:
            D["sel"]["enforce"] = False
        np.random.seed(SEED * 1000 + i)
        p = point(g, D)
        hyper = "none"
        if D["sel"]["k"] == "inj":
            hyper = num(lk.selection_function.surveyed_hypervolume(dict(p)))
        r, x = attempt(lambda: [num(lk.generate_rate_posterior_sample(dict(p))) for _ in range(n)])
        out.scenario(f"gamma-{be}-{SHARD}-{i}", [dict(op="rate", p=tree(p), hyper=hyper, out=r or ["nan"])], D=D)
out.close()
