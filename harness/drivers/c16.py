"""C16: extra statistics and metadata."""
from lk import *
out = Out()
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c16-{be}-{SHARD}")
    for i in range((400 if THOROUGH else 64) if be == "numpy" else (120 if THOROUGH else 20)):
        if not mine(i):
            continue
        kind = ["marg", "rate", "marg", "null"][i % 4]
        if i % 5 == 4:     # events without support, undefined and infinite weights
            k = int(g.integers(2, 4))
            rows = [[[0.0, 0.0], [1.0, 3.0], [0.0, 2.0], [np.nan, 1.0], [np.inf, 1.0], [2.0, 2.0]][g.integers(6)] for _ in range(k)]
            post = [pd.DataFrame(dict(w=r)) for r in rows]
            lk, D = make(g, be, kind=kind, n_events=k, model="col", form=["function", "model"][g.integers(2)], conv="id", post=post)
        else:
            lk, D = make(g, be, kind=kind, max_samples=[None, 3, None][i % 3])
        ev = []
        for j in range(3):
            p = point(g, D)
            if j == 2:
                p = {k: f(v) for k, v in ev[0]["p"].items()}
            sample = dict(p)
            got, x = attempt(lk.generate_extra_statistics, sample)
            lv, x2 = attempt(lk.ln_likelihood_and_variance, dict(p))
            ev.append(dict(op="extra", p=tree(p), same=bool(got is sample) or (got is not None and dict(got) == dict(sample)),
                           out=x or dict(k="dict", d={k: seen(v) for k, v in got.items()}),
                           llr=observe(lk.log_likelihood_ratio, dict(p)), var=x2 or seen(lv[1])))
        md, x = attempt(lambda: lk.meta_data)
        if x:
            ev.append(dict(op="meta", model=[], n_events=-1, samples=-1, data={}, plain=False, used={}, prior=x["t"], usedprior=""))
        else:
            ev.append(dict(op="meta", model=list(md["model"]), n_events=int(md["n_events"]), samples=int(md["samples_per_posterior"]),
                           data={k: tree(v) for k, v in md["data"].items()},
                           plain=all(type(v) is np.ndarray for v in md["data"].values())
                           and (type(md["sampling_prior"]) is np.ndarray or isinstance(md["sampling_prior"], (int, float))),
                           used={k: tree(np.asarray(v)) for k, v in lk.data.items()},
                           prior=tree(md["sampling_prior"]), usedprior=tree(np.asarray(lk.sampling_prior))))
        out.scenario(f"{be}-{SHARD}-{i}", ev, D=D, history=True)
out.close()
