"""C18: selection on a grid."""
from lk import *
from gwpopulation.vt import GridVT
import itertools
out = Out()
NAMES = ["mass", "q", "z"]
COEF = dict(mass="ca", q="cb", z="cc")


def model_for(keys, be):
    e = xp(be).exp
    # key of the first array axis is passed in `first`
    def grid_model(dataset, ca, cb, cc, d):
        c = dict(mass=ca, q=cb, z=cc)
        r = 1
        for k in sorted(keys[1:]) + [keys[0]]:
            r = r + c[k] * dataset[k]
        return r * e(-d * dataset[keys[0]])
    return grid_model


confs = [(tuple(c["keys"]), tuple(c["lens"]), tuple(o - 1 for o in c["order"])) for c in cases()]
confs.sort()
confs += [((k,), (n,), (0,)) for k in NAMES for n in (4, 9)] + [(("q", "mass"), (5, 4), o) for o in [(0, 1), (1, 0)]]
for be in ["numpy", "jax"]:
    set_backend(be)
    m = xp(be)
    g = rng(f"c18-{be}")
    sel = confs if (be == "numpy" or THOROUGH) else [confs[i] for i in g.permutation(len(confs))[:70]]
    for i, (perm, lens, order) in enumerate(sel):
        uni = i % 3 == 0
        ax = []
        for n in lens:
            a = np.linspace(1, 1 + n, n) if uni else np.sort(g.uniform(0.1, 9, n)) + np.arange(n) * 0.1
            ax.append(a)
        if i % 7 == 3:
            ax = [ax[0][: min(lens)]] + ax[1:] if len(set(lens)) == 1 else ax
            if len(set(lens)) == 1:
                ax = [ax[0]] * len(lens)           # identical axes
        grids = np.meshgrid(*ax, indexing="ij")
        vt = g.uniform(0, 2, lens) if i % 4 else np.ones(lens)
        if not mine(i):
            continue
        items = [(perm[j], m.asarray(grids[j])) for j in order]
        items.insert(int(i % (len(items) + 1)), ("vt", m.asarray(vt)))
        data = dict(items)
        fn = model_for(perm, be)
        D = dict(axes=[dict(key=k, v=nums(a)) for k, a in zip(perm, ax)], coef=[COEF[k] for k in perm], vt=nums(vt))
        sel_fn, x = attempt(GridVT, [fn, Model([fn]), [fn]][i % 3], data)
        ev = []
        for j in range(3):
            q = dict(ca=float(g.uniform(0, 2)), cb=float(g.uniform(0, 2)), cc=float(g.uniform(0, 2)), d=float(g.uniform(0, 0.5)))
            k = "ca cb cc d".split()[i % 4]
            p = q if j < 2 else {**p, k: q[k]}     # the last point differs in one hyperparameter
            ev.append(dict(op="grid", p=tree(p), out=x or observe(sel_fn, dict(p))))
        out.scenario(f"{be}-{i}-{'x'.join(perm)}-{lens}-{order}", ev, D=D)
out.close()
