"""C01: histories of backend selections, each in a forked process of its own."""
import json, os, sys, random, traceback, textwrap
sys.path = [p for p in sys.path if p]
SEED = int(os.environ["VERIF_SEED"])
THOROUGH = os.environ["VERIF_TIER"] == "thorough"
SHARD, SHARDS = (int(x) for x in os.environ["VERIF_SHARD"].split("/"))
cases_file, out_file, scratch = sys.argv[1:4]
# libraries (not gwpopulation) are loaded once; every history is a child
import numpy, scipy, scipy.special, scipy.linalg, scipy.stats, pandas, bilby, jax, jax.numpy, jax.scipy.special, jax.scipy.linalg, jax.scipy.stats  # noqa
import bilby.hyper.model, wcosmo, wcosmo.astropy, cached_interpolate  # noqa
assert "gwpopulation" not in sys.modules
EP = dict(
    arrays=dict(xp=["vplug_arrays"], scs=["vplug_arrays"]),
    funcs=dict(other=["vplug_funcs:scipy.linalg.toeplitz", "vplug_funcs:numpy.fft.fft"]),
    lib=dict(xp=["vplug_lib"], other=["vplug_lib:vplug_tools.tool", "vplug_lib:scipy.special.gammaln"]),
    late=dict(scs=["vplug_late.inner"]),
    logm=dict(xp=["vplug_logm"], other=["vplug_logm:scipy.linalg.logm"]))
FILES = dict(arrays="vplug_arrays.py", funcs="vplug_funcs.py", late="vplug_late/inner.py")


def install(d, case):
    os.makedirs(d + "/vplug_late")
    open(d + "/vplug_late/__init__.py", "w").close()
    for name in ["vplug_arrays.py", "vplug_funcs.py", "vplug_lib.py", "vplug_logm.py", "vplug_late/inner.py"]:
        open(f"{d}/{name}", "w").close()
    kinds = [ImportError, RuntimeError, None]
    for i, p in enumerate(case["broken"]):
        f = f"{d}/{FILES[p]}"
        k = random.Random(f"{SEED}{p}{case}").choice(kinds)
        if k is None:
            os.remove(f)                      # module not there at all
        else:
            open(f, "w").write(f"raise {k.__name__}('broken plugin')\n")
    with open(d + "/vplug_tools.py", "w") as f:
        f.write(textwrap.dedent(f"""
            import os
            def __getattr__(name):
                if name == "tool" and os.path.exists({d + '/present'!r}):
                    return len
                raise AttributeError(name)
        """))
    if case["fn"]:
        open(d + "/present", "w").close()
    groups = {}
    for p in case["plug"]:
        for g, vals in EP[p].items():
            groups.setdefault(g, []).extend(vals)
    dist = d + "/vplug-1.0.dist-info"
    os.mkdir(dist)
    open(dist + "/METADATA", "w").write("Metadata-Version: 2.1\nName: vplug\nVersion: 1.0\n")
    with open(dist + "/entry_points.txt", "w") as f:
        for g, vals in groups.items():
            f.write(f"[gwpopulation.{g}]\n")
            for i, v in enumerate(vals):
                f.write(f"{v.replace(':', '_').replace('.', '_')}{i} = {v}\n")


def label(x, np_obj, jax_obj):
    if x is np_obj:
        return "numpy"
    if x is jax_obj:
        return "jax"
    return "other"


def sites(case, pkg):
    import importlib
    out = {}
    labs = set()
    for name, attr in pkg:
        m = sys.modules.get(name)
        if m is None:
            labs.add("unloaded")
        else:
            o = getattr(m, attr, None)
            labs.add(label(o, numpy if attr == "xp" else scipy.special, jax.numpy if attr == "xp" else jax.scipy.special))
    out["pkg"] = labs.pop() if len(labs) == 1 else "mixed"
    spec = dict(arrays=[("vplug_arrays", "xp"), ("vplug_arrays", "scs")],
                funcs=[("vplug_funcs", "toeplitz"), ("vplug_funcs", "fft")],
                lib=[("vplug_lib", "xp"), ("vplug_lib", "tool"), ("vplug_lib", "gammaln")],
                late=[("vplug_late.inner", "scs")], logm=[("vplug_logm", "logm"), ("vplug_logm", "xp")])
    objs = dict(xp=(numpy, jax.numpy), scs=(scipy.special, jax.scipy.special),
                toeplitz=(scipy.linalg.toeplitz, jax.scipy.linalg.toeplitz), fft=(numpy.fft.fft, jax.numpy.fft.fft),
                gammaln=(scipy.special.gammaln, jax.scipy.special.gammaln), logm=(scipy.linalg.logm, object()))
    for p in case["plug"]:
        for mod, attr in spec[p]:
            m = sys.modules.get(mod)
            o = getattr(m, attr, None) if m else None
            if o is None:
                v = "none"
            elif attr == "tool":
                v = "neutral" if o is len else "other"
            else:
                v = label(o, *objs[attr])
            out[f"{p}.{attr}"] = v
    return out


def play(case, d):
    import importlib
    sys.path.insert(0, d)
    sys.stdout = open(os.devnull, "w")
    import gwpopulation
    assert gwpopulation.__file__.startswith("/repo/"), gwpopulation.__file__
    from importlib.metadata import entry_points
    pkg = sorted({(e.value, a) for a in ["xp", "scs"] for e in entry_points(group="gwpopulation." + a)
                  if e.value.startswith("gwpopulation.")})
    assert len(pkg) >= 5
    for name, _ in pkg:
        importlib.import_module(name)
    ev = []
    for st in case["steps"]:
        e = dict(a=st["a"], b=st["b"], out="ok")
        if st["a"] == "select":
            try:
                gwpopulation.set_backend(st["b"])
            except Exception as x:
                e["out"] = type(x).__name__
        elif st["a"] == "repair":
            open(f"{d}/{FILES[st['b']]}", "w").close()
            importlib.invalidate_caches()
        else:
            f = d + "/present"
            os.remove(f) if os.path.exists(f) else open(f, "w").close()
        e["att"] = sites(case, pkg)
        # a density evaluated now
        from gwpopulation import utils
        try:
            v = utils.trapezoid(utils.xp.ones(3), dx=0.5) * utils.xp.ones(1)
            e["computes"] = "jax" if isinstance(v, jax.Array) else "numpy" if isinstance(v, numpy.ndarray) else type(v).__name__
            e["x64"] = bool(v.dtype == numpy.float64)
        except Exception as x:
            e["computes"], e["x64"] = "raised " + type(x).__name__, False
        ev.append(e)
    return ev


def run(i, case):
    d = f"{scratch}/h{i}"
    os.makedirs(d)
    install(d, case)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.chdir(d)
            b = json.dumps(play(case, d)).encode()
            with os.fdopen(w, "wb") as f:
                f.write(b)
        except BaseException:
            traceback.print_exc()
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        b = f.read()
    _, st = os.waitpid(pid, 0)
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    if st:
        sys.exit(f"history {case} failed in the harness")
    return json.loads(b)


cases = [json.loads(l) for l in open(cases_file)]
cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
g = random.Random(SEED)
# behaviours of interest first: some selection succeeds after one that failed
n = 6000 if THOROUGH else 640
pick = g.sample(cases, min(n, len(cases)))
# longer random histories over all plugins
PL = ["arrays", "funcs", "lib", "late", "logm"]
for _ in range(n // 5):
    plug = sorted(g.sample(PL, g.randint(1, 4)))
    broken = [p for p in plug if p in FILES and g.random() < 0.4]
    fn = "lib" not in plug or g.random() < 0.6
    steps, br = [], list(broken)
    for _ in range(g.randint(5, 9)):
        k = g.random()
        if k < 0.65:
            steps.append(dict(a="select", b=g.choice(["numpy", "jax", "numpy", "jax", "cupy", "torch", "Numpy", ""])))
        elif k < 0.85 and br:
            p = br.pop(g.randrange(len(br)))
            steps.append(dict(a="repair", b=p))
        elif "lib" in plug:
            steps.append(dict(a="toggle", b="lib"))
    if steps:
        pick.append(dict(plug=plug, broken=broken, fn=fn, steps=steps))
with open(out_file, "w") as f:
    for i, c in enumerate(pick):
        if i % SHARDS == SHARD:
            ev = run(i, c)
            f.write(json.dumps(dict(id=f"h{i}", start=dict(plug=c["plug"], broken=c["broken"], fn=c["fn"]), history=True, ev=ev)) + "\n")
