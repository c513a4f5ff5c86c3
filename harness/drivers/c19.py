"""C19: beta parameters."""
from vlib import *
from gwpopulation.conversions import convert_to_beta_parameters, mu_var_max_to_alpha_beta_max, alpha_beta_max_to_mu_var_max
out = Out()


def enc(d):
    return {k: dict(k="None") if v is None else dict(k="val", v=num(np.asarray(v).item())) for k, v in d.items()}


g = rng("c19")
for i, c in enumerate(cases()):
    flip = g.integers(4)
    if not mine(i):
        continue
    items = [(k, None if v["k"] == "None" else float(v["v"])) for k, v in c.items()]
    items = [items[j] for j in np.random.default_rng([SEED, i]).permutation(len(items))]
    P = dict(items)
    before = dict(P)
    kw = [{}, dict(remove=True), dict(remove=False), {}][flip]
    r, x = attempt(convert_to_beta_parameters, P, **kw)
    ok = x is None and isinstance(r, tuple) and isinstance(r[0], dict)
    e = dict(op="dict", P=enc(before), after=enc(P), ok=ok, remove=kw.get("remove", True), out={}, added=[])
    if ok:
        try:
            e["out"], e["added"] = enc(r[0]), [str(k) for k in r[1]]
        except Exception:
            e["ok"] = False
    out.event(e)


def trip(r):
    try:
        a, b, c = r
        n = max(np.size(a), np.size(b), np.size(c))
        return dict(k="triple", a=nums(np.broadcast_to(a, n)), b=nums(np.broadcast_to(b, n)), c=nums(np.broadcast_to(c, n)))
    except Exception as x:
        return dict(k="bad")


for be in ["numpy", "jax"]:
    set_backend(be)
    m = xp(be)
    for i in range(400 if THOROUGH else 80):
        n = [1, 4, 6][i % 3]
        al, bt, am = g.uniform(0.5, 12, n), g.uniform(0.5, 12, n), g.uniform(0.2, 2.5, n)
        mu, var = al / (al + bt) * am, al * bt / (al + bt) ** 2 / (al + bt + 1) * am**2
        if not mine(i):
            continue
        for fn, inv, name, args in [(mu_var_max_to_alpha_beta_max, alpha_beta_max_to_mu_var_max, "to_shape", (mu, var, am)),
                                    (alpha_beta_max_to_mu_var_max, mu_var_max_to_alpha_beta_max, "to_moments", (al, bt, am))]:
            a = [float(v[0]) for v in args] if n == 1 else [m.asarray(v) for v in args]
            if n > 1 and i % 2:
                a[2] = float(am[0])
            keep = [np.array(v, copy=True) for v in a]
            r, x = attempt(fn, *a)
            e = dict(op="fn", fn=name, x=nums(np.broadcast_to(keep[0], n)), y=nums(np.broadcast_to(keep[1], n)), z=nums(np.broadcast_to(keep[2], n)), ok=x is None,
                     out=trip(r) if x is None else dict(k="bad"))
            b, xb = attempt(inv, *r) if x is None else (None, 1)
            e["back"] = trip(b) if xb is None else dict(k="bad")
            e["same"] = all(np.array_equal(np.asarray(v), k) for v, k in zip(a, keep))
            out.event(e)
out.close()
