"""C15: predictive resampling."""
from lk import *
out = Out()
for be in ["numpy", "jax"]:
    set_backend(be)
    m = xp(be)
    g = rng(f"c15-{be}-{SHARD}")
    for i in range((240 if THOROUGH else 48) if be == "numpy" else (60 if THOROUGH else 16)):
        if not mine(i):
            continue
        n_events = int(g.integers(1, 4))
        k = int(g.integers(2, 9))
        prior = bool(i % 3)
        post = tables(g, n_events, [k] * n_events, prior=prior, extra=bool(i % 2))
        if i % 2:
            for t in post:
                z = g.integers(0, 2, len(t)).astype(bool)
                z[int(g.integers(len(t)))] = False
                t.loc[z, ["x", "y"]] = 0.0
                t["tag"] = g.uniform(0, 1, len(t))
        name, conv = [("id", "id"), ("double_keep", "double"), ("replace", "replace"), ("double_inplace", "double"), ("replace_inplace", "replace"), ("double_keep", "double")][i % 6]
        kw = {} if conv == "id" else dict(conversion_function=globals()[name])
        lk = KIND[["marg", "rate"][(i // 2) % 2]](post, [lin, Model([lin]), Model([lin], cache=False)][i % 3], **kw)
        nh = [1, 3, 5][i % 3]
        hyper = [dict(a=float(g.uniform(0.1, 3)), **{"c" if conv == "double" else "b": float(g.uniform(0, 3))}) for _ in range(nh)]
        if i % 4 == 1:
            hyper[0]["a"] = 0.0
        forms = [list(hyper), pd.DataFrame(hyper)] + ([dict(hyper[0])] if nh == 1 else [])
        if nh > 1:
            df = pd.DataFrame(hyper)
            df.index = g.permutation(nh) + 4
            df["log_likelihood"] = 1.0
            forms.append(df)
            rep = pd.DataFrame(hyper)       # labels need not be unique
            rep.index = [[7] * nh, ["a", "b", "a", "b", "b"][:nh]][i % 2]
            forms.append(rep)
        base = dict(op="resample", be=be, conv=conv, n=k, hyper=tree(hyper),
                    data={c: tree(np.asarray(v)) for c, v in lk.data.items()})
        if prior:
            base["prior"] = tree(np.asarray(lk.sampling_prior))
        ev = []
        for j, form in enumerate(forms):
            np.random.seed(SEED * 100 + j)
            hasw = j % 2 == 0 or i % 2 == 0
            r, x = attempt(lk.posterior_predictive_resample, form, **(dict(return_weights=True) if hasw else {}))
            e = dict(base, ok=x is None, hasw=False, new={}, weights=[])
            if x is None and hasw:
                if isinstance(r, tuple) and len(r) == 2:
                    e["hasw"], e["weights"], r = True, tree(np.asarray(r[1])), r[0]
                else:
                    e["ok"] = False
            if e["ok"]:
                e["ok"] = isinstance(r, dict)
                e["new"] = {c: tree(np.asarray(v)) for c, v in r.items()} if e["ok"] else {}
            ev.append(e)
        # frequencies of the drawn samples over repetitions
        if i % 8 == SHARD % 8 or i % 6 == 0:
            R = 300 if be == "numpy" else 60
            rows = {c: np.asarray(v) for c, v in lk.data.items()}
            key = "tag" if "tag" in rows else "x"
            cnt = np.zeros((n_events, k))
            np.random.seed(SEED * 31 + i)
            for _ in range(R):
                new, w = lk.posterior_predictive_resample(list(hyper), return_weights=True)
                a = np.asarray(new[key])
                for q in range(n_events):
                    cnt[q] += (a[q][:, None] == rows[key][q][None, :]).sum(axis=0)
            for q in range(n_events):
                ev.append(dict(op="freq", counts=nums(cnt[q]), w=nums(np.asarray(w)[q]), n=num(R * k)))
        out.scenario(f"{be}-{SHARD}-{i}", ev, history=True)
out.close()
