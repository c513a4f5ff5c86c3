"""C11: the likelihood as Monte Carlo estimator."""
from lk import *
out = Out()
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c11-{be}-{SHARD}")
    m = xp(be)
    for i in range((400 if THOROUGH else 60) if be == "numpy" else (160 if THOROUGH else 24)):
        if not mine(i):
            continue
        n = int(g.integers(1, 5))
        lnev = [None, list(g.normal(size=n) * 10), np.array(g.normal(size=n))][i % 3]
        ms = [None, None, int(g.integers(1, 5)), 1e4][i % 4]
        lk, D = make(g, be, kind="marg", n_events=n, lnev=lnev, max_samples=ms)
        ev = [evaluate(lk, D, point(g, D), be, wrap=[None, m.asarray, float][j % 3]) for j in range(4)]
        ev.append(evaluate(lk, D, {k: f(v) for k, v in ev[0]["p"].items()}, be))   # an earlier point again
        out.scenario(f"{be}-{SHARD}-{i}", ev, D=D, history=True)
        # the same tables in another order of events and rows
        if D["full"] and i % 2:
            post = [pd.DataFrame({c: [f(v) for v in t[c]] for c in t}).sample(frac=1, random_state=i) for t in D["post"]][::-1]
            lk2, D2 = make(rng(f"r{i}"), be, n_events=n, model=D["model"], conv=D["conv"], sel="pair", post=post)
            out.scenario(f"{be}-{SHARD}-{i}-perm", [evaluate(lk2, D2, point(g, D2), be)], D=D2)
out.close()
