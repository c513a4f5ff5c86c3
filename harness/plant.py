#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies:  plant.py [--tests] [--jobs N] ID...
The patch applies to /repo's HEAD, removes a line of the original repository, the demo passes without and fails
with it, and (--tests) the stable tests pass with it.  Scratch copies live in /tmp/plant and are removed."""
import json, os, pathlib, re, shutil, subprocess, sys
ROOT = pathlib.Path(__file__).resolve().parents[1]
BASE = "65bf0ba"
ENV = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", BILBY_ALLOW_PARAMETERS_AS_STATE="FALSE",
           MPLBACKEND="Agg", JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=dict(ENV, **env))


def confirm(i, tests, jobs):
    d = ROOT / "seeded" / i
    w = pathlib.Path("/tmp/plant") / i
    shutil.rmtree(w, ignore_errors=True)
    w.parent.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
    try:
        r = sh(f"git apply {d}/patch.diff", w)
        if r.returncode:
            return "does not apply: " + r.stderr
        orig = False
        name = None
        for l in (d / "patch.diff").read_text().splitlines():
            if l.startswith("--- a/"):
                name = l[6:]
                src = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{name}"], capture_output=True, text=True).stdout.splitlines()
            elif l.startswith("-") and l[1:].strip() and l[1:] in src:
                orig = True
        if not orig:
            return "changes no original line"
        a = sh(f"bash {d}/demo.sh", "/repo")
        b = sh(f"bash {d}/demo.sh", w)
        if a.returncode:
            return "demo fails on the unchanged tree: " + a.stdout[-800:] + a.stderr[-800:]
        if not b.returncode:
            return "demo passes with the patch"
        note = (b.stdout + b.stderr).strip().splitlines()[-1:]
        if tests:
            stable = json.load(open("/opt/vp/BASELINE.json"))
            stable = set(stable.get("passed") or stable.get("stable") or stable)
            rep = w / "_rep"
            rep.mkdir()
            cmd = (f"find test -name '*_test.py' -o -name 'test_*.py' | sort | grep '^test/' | xargs -P {jobs} -I{{}} bash -c 'timeout 900 /opt/venv/bin/python -m pytest -q "
                   f"-p no:cacheprovider -p vp_seed -W ignore --timeout=300 -o junit_family=xunit2 --junitxml={rep}/$(basename {{}}).xml {{}} >> {rep}/log 2>&1'")
            sh(cmd, w, PYTHONPATH=f"{w}:/opt/vp/pytest_plugins", PATH="/opt/venv/bin:" + os.environ["PATH"])
            r = sh(f"/opt/venv/bin/python /opt/vp/results.py {rep}/out.json 'junit:{rep}/*.xml'", w)
            res = json.load(open(rep / "out.json"))
            lost = stable - set(res["passed"])
            if lost:
                return f"tests catch it: {len(lost)} {sorted(lost)[:3]} {res.keys()}"
        return "ok: " + " ".join(note)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    jobs = 3
    if "--jobs" in args:
        k = args.index("--jobs")
        jobs = int(args[k + 1])
        del args[k:k + 2]
    tests = "--tests" in args
    ids = [a for a in args if a != "--tests"] or sorted(p.name for p in (ROOT / "seeded").iterdir() if p.is_dir())
    for i in ids:
        print(i, confirm(i, tests, jobs), flush=True)
