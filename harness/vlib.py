"""Helpers of the drivers: observation of the code under test and trace output."""
import json, math, os, sys
import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
SHARD, SHARDS = (int(x) for x in os.environ.get("VERIF_SHARD", "0/1").split("/"))

import gwpopulation  # noqa: E402
if not os.path.abspath(gwpopulation.__file__).startswith("/repo/"):
    sys.exit(f"gwpopulation comes from {gwpopulation.__file__}")
import bilby  # noqa: E402
bilby.core.utils.logger.setLevel("ERROR")


def num(x):
    """A number as the numeral the specification reads."""
    if isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_)):
        return str(int(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    x = float(x)
    if math.isnan(x):
        return "nan"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    return repr(x)


def nums(a):
    return [num(x) for x in np.asarray(a).reshape(-1).tolist()]


def tree(x):
    """JSON form of (nested) inputs."""
    if isinstance(x, dict):
        return {str(k): tree(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [tree(v) for v in x]
    if isinstance(x, str) or isinstance(x, bool):
        return x
    if x is None:
        return "None"
    a = np.asarray(x)
    return num(a.item()) if a.ndim == 0 else tree(a.tolist())


def seen(x):
    """Observation of a returned value."""
    if isinstance(x, (bool, np.bool_, int, float, np.number)) or hasattr(x, "shape"):
        try:
            a = np.asarray(x)
            if a.dtype.kind in "biuf":
                return dict(k="arr", sh=list(a.shape), v=nums(a))
        except Exception as e:
            return dict(k="other", t=type(e).__name__)
    return dict(k="other", t=type(x).__name__)


def observe(fn, *args, **kwargs):
    try:
        return seen(fn(*args, **kwargs))
    except Exception as e:
        return dict(k="exc", t=type(e).__name__, m=str(e)[:200])


def attempt(fn, *args, **kwargs):
    """(value, None) or (None, observation of the exception)."""
    try:
        return fn(*args, **kwargs), None
    except Exception as e:
        return None, dict(k="exc", t=type(e).__name__, m=str(e)[:200])


_WARM = [0]


def warm(mod, data, p, keep=None):
    """Evaluate the same object first where a single hyperparameter has another value (every other call):
    what the observed evaluation returns is that of its own hyperparameters, whatever came before."""
    _WARM[0] += 1
    names = sorted(k for k in p if keep is None or not (k.startswith(keep) and k[len(keep):].isdigit()))
    if _WARM[0] % 2 or not names:
        return
    k = names[(_WARM[0] // 2) % len(names)]
    v = p[k] if isinstance(p[k], int) else p[k] * 0.93 if p[k] else 0.07
    observe(mod, data, **{**p, k: v + 1 if isinstance(v, int) else v})


def cases():
    with open(sys.argv[1]) as f:
        return [json.loads(l) for l in f]


class Out:
    def __init__(self):
        self.f = open(sys.argv[2], "w")
        self.n = 0
        self.buf = []

    def scenario(self, id, ev, **kw):
        if ev:
            self.f.write(json.dumps(dict(id=id, ev=ev, **kw)) + "\n")
            self.n += 1

    # independent events, grouped into scenarios
    def event(self, e, group=16):
        self.buf.append(e)
        if len(self.buf) >= group:
            self.flush()

    def flush(self):
        self.scenario(f"s{SHARD}-{self.n}", self.buf)
        self.buf = []

    def close(self):
        self.flush()
        self.f.close()


def mine(i):
    return i % SHARDS == SHARD


def rng(name):
    import zlib
    return np.random.default_rng([SEED, zlib.crc32(name.encode())])


def f(x):
    return float(x)


def set_backend(name):
    gwpopulation.set_backend(name)


def xp(name):
    if name == "numpy":
        return np
    import jax.numpy as jnp
    return jnp
