"""C14: ingestion of posterior tables."""
from lk import *
out = Out()


def label(t, kind, g):
    n = len(t)
    if kind == "shuffled":
        t.index = g.permutation(n) * 7 - 2
    elif kind == "repeated":
        t.index = g.integers(0, max(1, n // 2) , n)
    elif kind == "names":
        t.index = [f"row{i}" for i in g.permutation(n)]
    return t


count = 0


def table(n, prior, labels, g, ncol, integer=False):
    global count
    # every cell has a value of its own
    d = {}
    for c in ["mass_1", "chi", "z"][:ncol]:
        d[c] = np.arange(n) * 1.0 + count + g.uniform(0, 0.5, n)
        count += n
    if integer:
        d["mass_1"] = (np.arange(n) + count).astype(int)
        count += n
    if prior:
        d["prior"] = np.arange(n) + count + 0.25
        count += n
    cols = list(d)
    g.shuffle(cols)
    return label(pd.DataFrame({c: d[c] for c in cols}), labels, g)


def ingest(be, tabs, mx, kind="marg"):
    kw = {} if mx == 0 else dict(max_samples=mx)
    lk, x = attempt(KIND[kind], tabs, Model([col]), **kw)
    e = dict(op="ingest", be=be, tables=[{c: nums(np.asarray(t[c], float)) for c in t} for t in tabs], max=int(mx), ok=x is None, data={}, prior=dict(k="none", d="0"), samples=-1)
    if x is None:
        try:
            e["data"] = {k: tree(np.asarray(v, float)) for k, v in lk.data.items()}
            sp = lk.sampling_prior
            e["prior"] = dict(k="arr", d=tree(np.asarray(sp, float))) if np.ndim(sp) else dict(k="num", d=num(sp))
            e["samples"] = int(lk.samples_per_posterior)
        except Exception as err:
            e["ok"], e["err"] = False, repr(err)[:200]
    else:
        e["err"] = x
    return e


lattice = cases()
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c14-{be}-{SHARD}")
    np.random.seed(SEED * 17 + SHARD)
    sub = [c for i, c in enumerate(lattice) if mine(i)]
    if not THOROUGH:
        sub = [sub[i] for i in g.permutation(len(sub))[: 260 if be == "numpy" else 80]]
    for i, c in enumerate(sub):
        tabs = [table(n, c["prior"], c["labels"], g, 1 + i % 3, integer=i % 5 == 0) for n in c["lens"]]
        if i % 4 == 1:      # a column that only some of the later tables have is not a shared one
            for t in tabs[1::2]:
                t["only_here"] = np.arange(len(t)) * 0.5
        out.event(ingest(be, tabs, c["max"], ["marg", "rate", "null"][i % 3]))
    for i in range(4):
        tabs = [table(int(n), bool(i % 2), "shuffled", g, 3) for n in g.integers(20, 40, 3)]
        out.event(ingest(be, tabs, [0, 15, 25, 1000][i]))
    # every row is equally likely to be drawn, at every position, independently per event
    if SHARD < 2:
        R = 600 if be == "numpy" else 150
        tab = pd.DataFrame(dict(mass_1=np.arange(5.0), prior=np.ones(5)))
        other = pd.DataFrame(dict(mass_1=np.arange(5.0) + 10, prior=np.ones(5)))
        cnt = np.zeros((2, 2, 5))
        same = 0
        for r in range(R):
            lk = KIND["marg"]([tab, other], Model([col]), max_samples=2)
            d = np.asarray(lk.data["mass_1"])
            for i in range(2):
                for j in range(2):
                    v = int(round(float(d[i, j]))) - 10 * i
                    if 0 <= v < 5:
                        cnt[i, j, v] += 1
            same += int(round(float(d[0, 0]))) == int(round(float(d[1, 0]))) - 10
        for i in range(2):
            # an event's draw as a set (the order of the samples is free)
            out.event(dict(op="freq", counts=nums(cnt[i].sum(axis=0)), w=["0.2"] * 5, n=num(2 * R)))
        out.event(dict(op="freq", counts=[num(same)], w=["0.2"], n=num(R)))
out.close()
