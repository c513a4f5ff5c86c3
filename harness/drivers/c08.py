"""C08: spline models."""
from vlib import *
from gwpopulation.models import spin as S, mass as MM
from gwpopulation.models.interped import InterpolatedNoBaseModelIdentical
out = Out()
COORD = dict(a=["a_1", "a_2"], tilt=["cos_tilt_1", "cos_tilt_2"], one=["chi_eff"], three=["x_1", "y", "z"])
BASE = dict(a="a", tilt="cos_tilt", one="chi_eff", three="x", mass="mass")


def build(which, c, how):
    kw = dict(minimum=float(c["lo"]), maximum=float(c["hi"]), nodes=c["built"], kind=c["kind"], regularize=c["reg"])
    if how == "default":
        return S.SplineSpinMagnitudeIdentical() if which == "a" else S.SplineSpinTiltIdentical()
    if which == "a":
        return S.SplineSpinMagnitudeIdentical(**kw)
    if which == "tilt":
        return S.SplineSpinTiltIdentical(**kw)
    return InterpolatedNoBaseModelIdentical(parameters=list(COORD[which]), log_nodes=c["log"], **kw)


def hyper(which, x0, y, c, rms):
    b = BASE[which]
    p = {f"{b}{i}": (int if len(y) % 2 and float(v).is_integer() else float)(v) for i, v in enumerate(x0)}
    num_ = int if getattr(y, "dtype", None) == int else float      # integer node values too
    p.update({f"f{b}{i}": num_(v) for i, v in enumerate(y)})
    if c["reg"]:
        p[f"rms{b}"] = rms
    return p


def call(be, which, c, x0, y, pts, shape, rms=1.3, how="", shift=None):
    m = xp(be)
    d = {k: m.asarray(np.reshape(v, shape)) for k, v in zip(COORD[which], pts)}
    mod, err = attempt(build, which, c, how)
    if err is None:
        warm(mod, d, hyper(which, x0, y, c, rms), keep=BASE[which])
    o = observe(mod, d, **hyper(which, x0, y, c, rms)) if err is None else err
    cfg = dict(n=len(y), kind=c["kind"], log=c["log"], lo=num(c["lo"]), hi=num(c["hi"]), grid=10 * len(y))
    ev = dict(op="spline", fn=which, be=be, cfg=cfg, built=c["built"], reg=c["reg"], rms=num(rms), f=nums(y), x0=nums(x0), pts=[nums(v) for v in pts], sh=list(shape), out=o)
    out.event(ev, group=4)
    if shift is not None and not c["reg"]:
        m2, e2 = attempt(build, which, c, how)
        o2 = observe(m2, d, **hyper(which, x0, np.asarray(y) + shift, c, rms)) if e2 is None else e2
        out.event(dict(op="shift", fn=which, be=be, cfg=cfg, by=num(shift), out=o, shifted=o2), group=4)


def nodes(c, lo=None, hi=None):
    lo, hi = c["lo"] if lo is None else lo, c["hi"] if hi is None else hi
    n = c["n"]
    return np.exp(np.linspace(np.log(lo), np.log(hi), n)) if c["log"] else np.linspace(lo, hi, n)


def mass(be, c, y, p, m1, q, rms, how):
    m = xp(be)
    x0 = nodes(c)
    x0[0], x0[-1] = c["lo"], c["hi"]
    kw = dict(nodes=c["n"], kind=c["kind"], mmin=c["lo"], mmax=c["hi"], normalization_shape=(c["grid"], c["nq"]), regularize=c["reg"])
    mod, err = attempt(MM.InterpolatedPowerlaw, **({} if how == "default" else kw))
    if err is None:
        warm(mod, dict(mass_1=m.asarray(m1), mass_ratio=m.asarray(q)), {**p, **hyper("mass", x0, y, c, rms)}, keep="mass")
    o = observe(mod, dict(mass_1=m.asarray(m1), mass_ratio=m.asarray(q)), **p, **hyper("mass", x0, y, c, rms)) if err is None else err
    out.event(dict(op="splinemass", fn="mass", be=be, cfg=dict(n=c["n"], kind=c["kind"], log=True, lo=num(c["lo"]), hi=num(c["hi"]), grid=c["grid"], nq=c["nq"]),
                   p={k: num(v) for k, v in p.items()}, reg=c["reg"], rms=num(rms), f=nums(y), x0=nums(x0), pts=[nums(m1), nums(q)], sh=list(np.shape(m1)), out=o), group=2)


lat = cases()
for be in ["numpy", "jax"]:
    set_backend(be)
    g = rng(f"c08-{be}")
    order = g.permutation(len(lat))
    if not THOROUGH:
        order = order[: 160 if be == "numpy" else 16]
    for i, j in enumerate(order):
        if not mine(i):
            continue
        c = lat[j]["cfg"]
        c.update(lo=float(c["lo"]), hi=float(c["hi"]))
        y = [f(v) for v in lat[j]["y"]]
        which = ("one", "three")[i % 2] if c["log"] else ("a", "tilt", "one", "three")[i % 4]
        x0 = nodes(c)
        x0[0], x0[-1] = c["lo"], c["hi"]
        r = np.random.default_rng([SEED, int(j)])
        w = c["hi"] - c["lo"]
        k = len(COORD[which])
        pts = [np.concatenate([r.choice(x0, 3), c["lo"] + w * r.uniform(0, 1, 7), [c["lo"] - 0.01 * w * (1 if t else -1), c["hi"] + 0.01 * w * (-1 if t else 1)]]) for t in range(k)]
        pts = [np.maximum(v, 0.01) if c["log"] else v for v in pts]
        call(be, which, c, x0, y, pts, [(12,), (3, 4)][i % 2], shift=[None, 2.5, -7.0][i % 3])
    N = (300 if THOROUGH else 60) if be == "numpy" else (40 if THOROUGH else 8)
    for i in range(N):
        which = ("a", "tilt", "one", "three")[i % 4]
        log = which in ("one", "three") and i % 8 >= 4
        how = "default" if which in ("a", "tilt") and i % 5 == 0 else ""
        if how:
            c = dict(n=5, kind="cubic", log=False, lo=0.0 if which == "a" else -1.0, hi=1.0, reg=False, built=5)
        else:
            lo = float(g.uniform(0.1, 2))
            n = int(g.integers(4, 11)) if be == "numpy" else 6
            c = dict(n=n, kind=str(g.choice(["cubic", "cubic", "linear", "nearest"])), log=bool(log), lo=lo, hi=lo + float(g.uniform(0.5, 5)), reg=bool(g.integers(2)),
                     built=max(4, n - int(g.integers(0, 3))))
        y = g.normal(0, 1.5, c["n"])
        if i % 6 == 3:      # integer node values
            y = np.rint(y).astype(int)
            y[0] = 1
            c["reg"] = not how
        w = c["hi"] - c["lo"]
        if i % 3 == 1:  # node range inside the range of the model
            x0 = nodes(c, c["lo"] + 0.0713 * w, c["hi"] - 0.1131 * w)
        else:
            x0 = nodes(c)
            x0[0], x0[-1] = c["lo"], c["hi"]
        pts = [c["lo"] + w * g.uniform(-0.02, 1.02, 6) for _ in COORD[which]]
        if mine(i):
            call(be, which, c, x0, y, pts, [(6,), (2, 3)][i % 2], rms=float(0.3 + i % 7), how=how, shift=float(i % 5 - 2) * 3)
    N = (120 if THOROUGH else 32) if be == "numpy" else (16 if THOROUGH else 4)
    for i in range(N):
        default = i == N - 1
        c = dict(n=10, kind="cubic", lo=2.0, hi=100.0, grid=1000, nq=500, reg=False, log=True) if default else \
            dict(n=[5, 7, 10][i % 3], kind=["cubic", "linear", "cubic"][i % 3], lo=float(g.uniform(2, 5)), hi=float(g.uniform(50, 120)), grid=int(g.integers(15, 40)), nq=int(g.integers(8, 30)), reg=bool(i % 2), log=True)
        y = g.normal(0, 1, c["n"])
        mmin = c["lo"] if i % 4 == 0 else c["lo"] + float(g.uniform(0, 4))
        mmax = c["hi"] if i % 4 == 1 else c["hi"] - float(g.uniform(1, 30))
        p = dict(alpha=float(g.uniform(-1, 5)), beta=float(g.uniform(-2, 4)), mmin=mmin, mmax=mmax, delta_m=[0.0, float(g.uniform(*[(0.02, 1), (1, 10)][(i // 3) % 2])), float(g.uniform(2, 8))][i % 3])
        n = 3 if default else 7
        m1 = mmin + g.uniform(-0.02, 1.02, n) ** 2 * (c["hi"] - mmin)
        q = np.clip(mmin / m1 + g.uniform(-0.05, 1.02, n) * (1 - mmin / m1), 0.01, None)
        rms = float(g.uniform(0.5, 3))
        if mine(i):
            mass(be, c, y, p, m1, q, rms, "default" if default else "")
out.close()
