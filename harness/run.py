#!/usr/bin/env python3
"""Runs the check of one property:  run.py C03   (VERIF_TIER, VERIF_SEED)

 1. compiles java/Dec.java (the real-arithmetic accelerators of spec/Dec.tla);
 2. model-checks the design specification(s) of the property with TLC, which
    also enumerate the cases / behaviours to be replayed (CASE lines);
 3. runs the driver (harness/drivers/<id>.py) which replays these cases and
    seeded random ones in the code of /repo and records a trace;
 4. validates the trace against the specification with TLC (FAIL lines);
 5. writes evidence/<id>.json and prints the verdict.
Exit 0: held; 1: violation; 2: failure of the machinery.
"""
import hashlib, importlib, json, os, pathlib, re, shutil, subprocess, sys, time

ROOT = pathlib.Path(__file__).resolve().parents[1]
REPO = pathlib.Path("/repo")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
sys.path.insert(0, str(ROOT / "harness"))


class MachineryError(Exception):
    pass


class CodeError(Exception):
    """The code under test raised where no operation of the driver may raise."""


def log(*a):
    print(*a, flush=True)


def classes():
    src = (ROOT / "java/Dec.java").read_bytes()
    out = ROOT / "build" / ("classes-" + hashlib.sha256(src).hexdigest()[:12])
    if not (out / "Dec.class").exists():
        tmp = ROOT / "build" / f"classes-tmp-{os.getpid()}"
        tmp.mkdir(parents=True, exist_ok=True)
        r = subprocess.run(["javac", "-cp", TLAJARS, "-d", str(tmp), str(ROOT / "java/Dec.java")],
                           capture_output=True, text=True)
        if r.returncode:
            raise MachineryError("javac: " + r.stderr)
        try:
            tmp.rename(out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def tlc(module, cfg, work, env=None, workers=8, timeout=800, extra=(), trace=False):
    """Runs TLC; returns (output lines, stats)."""
    cls = classes()
    meta = work / f"meta-{module}-{cfg}"
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx8g", "-cp", f"{TLAJARS}:{cls}", "tlc2.TLC",
           "-workers", str(workers), "-metadir", str(meta), "-nowarning", "-deadlock", "-noGenerateSpecTE",
           "-config", str(ROOT / "spec" / f"{cfg}.cfg"), *extra, str(ROOT / "spec" / f"{module}.tla")]
    t = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=ROOT / "spec", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    shutil.rmtree(meta, ignore_errors=True)
    lines = r.stdout.splitlines()
    (work / f"{module}-{cfg}.log").write_text(r.stdout + r.stderr)
    if r.returncode != 0:
        tail = "\n".join(l[:600] for l in lines if not l.startswith(("Loading", "Semantic", "Parsing", '"CASE', '"FAIL')))[-5000:]
        msg = f"TLC {module}/{cfg} exit {r.returncode}\n{tail}\n{r.stderr[-1000:]}"
        # a recorded value to which the specification assigns no meaning (e.g. a number where an array belongs);
        # the operators are total on the values that the code produces on the unchanged tree
        if trace and r.returncode in (75, 76):
            raise CodeError("recorded event outside the domain of the specification\n" + msg)
        raise MachineryError(msg)
    gen = dist = None
    for l in lines:
        m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", l)
        if m:
            gen, dist = int(m[1]), int(m[2])
            if int(m[3]):
                raise MachineryError(f"TLC {module}: states left on queue")
    if gen is None:
        raise MachineryError(f"TLC {module}: no statistics\n" + r.stdout[-2000:])
    return lines, dict(generated=gen, distinct=dist, wall=round(time.time() - t, 2))


def printed(lines, tag):
    for l in lines:
        if l.startswith(f'"{tag}|'):
            yield json.loads(l)[len(tag) + 1:]


def ensure_repo():
    """The version file and the package metadata are git-ignored build products."""
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && install_editable"], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("install: " + r.stderr[-2000:])


def driver_env(seed, tier):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONHOME", "VIRTUAL_ENV")}
    e.update(PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             PYTHONPATH=f"/repo:{ROOT}/harness", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             BILBY_ALLOW_PARAMETERS_AS_STATE="FALSE", MPLBACKEND="Agg", JAX_PLATFORMS="cpu",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HOME=os.environ.get("HOME", "/root"),
             VERIF_SEED=str(seed), VERIF_TIER=tier)
    return e


def run_driver(pid, shards, cases_file, work, seed, tier, timeout=800):
    """Runs the driver in parallel shards; returns the list of scenarios."""
    procs = []
    for i in range(shards):
        out = work / f"trace-{i}.ndjson"
        e = driver_env(seed, tier)
        e["VERIF_SHARD"] = f"{i}/{shards}"
        logf = open(work / f"driver-{i}.log", "w")
        scratch = work / f"scratch-{i}"
        scratch.mkdir()
        procs.append((i, out, logf, subprocess.Popen(
            [PY, "-W", "ignore", str(ROOT / "harness" / "drivers" / f"{pid.lower()}.py"), str(cases_file), str(out), str(scratch)],
            stdout=logf, stderr=subprocess.STDOUT, env=e, cwd=scratch)))
    scen = []
    t = time.time()
    bad = None
    for i, out, logf, p in procs:
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t)))
        except subprocess.TimeoutExpired:
            p.kill()
            bad = f"driver shard {i} timed out"
        logf.close()
        if p.returncode and not bad:
            bad = f"driver shard {i} exit {p.returncode}\n" + (work / f"driver-{i}.log").read_text()[-3000:]
    if bad:
        for *_, p in procs:
            p.kill()
        # an exception that escapes from an operation the driver expects to work, or a result of a type
        # which the driver cannot record
        if "Traceback (most recent call last)" in bad and (
                re.search(r'File "/repo/gwpopulation', bad) and not re.search(r"\n(MemoryError|OSError)", bad)
                or re.search(r"\n(TypeError|ValueError|KeyError|IndexError|AttributeError|ZeroDivisionError|AssertionError|OverflowError)\b", bad)):
            raise CodeError(bad)
        raise MachineryError(bad)
    for i, out, *_ in procs:
        with open(out) as f:
            scen += [json.loads(l) for l in f]
    return scen


def sample(x, depth=0):
    """A shortened copy for the evidence file."""
    if isinstance(x, dict):
        return {k: sample(v, depth + 1) for k, v in list(x.items())[:14]}
    if isinstance(x, list):
        return [sample(v, depth + 1) for v in x[:4]] + ([f"... {len(x)} in total"] if len(x) > 4 else [])
    return x


def check(pid, tier, seed):
    t0 = time.time()
    conf = importlib.import_module("props").PROPS[pid]
    work = ROOT / "build" / f"run-{pid}-{os.getpid()}"
    shutil.rmtree(work, ignore_errors=True)
    work.mkdir(parents=True)
    try:
        ensure_repo()
        states = transitions = 0
        runs = []
        # -- design model checking and generation
        cases_file = work / "cases.ndjson"
        ncases = 0
        with open(cases_file, "w") as cf:
            for d in conf.get("design", []):
                cfg = d.get("cfg", d["module"])
                if tier == "thorough" and (ROOT / "spec" / f"{cfg}_thorough.cfg").exists():
                    cfg += "_thorough"
                lines, st = tlc(d["module"], cfg, work, workers=d.get("workers", 8), extra=d.get("extra", ()))
                for c in sorted(set(printed(lines, "CASE"))):   # the order of TLC's workers is not reproducible
                    cf.write(c + "\n")
                    ncases += 1
                states += st["distinct"]
                transitions += st["generated"]
                runs.append(dict(spec=d["module"], cfg=cfg, **st))
        t1 = time.time()
        # -- execution of the code
        scen = run_driver(pid, conf.get("shards", 1), cases_file, work, seed, tier)
        if not scen:
            raise MachineryError("no scenario recorded")
        t2 = time.time()
        # -- conformance
        byspec = {}
        for s in scen:
            byspec.setdefault(s.get("spec", conf["trace"]), []).append(s)
        fails = []
        events = 0
        for spec, ss in byspec.items():
            tf = work / f"trace-{spec}.ndjson"
            with open(tf, "w") as f:
                for s in ss:
                    f.write(json.dumps(s) + "\n")
            n = sum(len(s["ev"]) for s in ss)
            events += n
            lines, st = tlc(spec, spec, work, env=dict(TRACE=str(tf)), trace=True)
            if st["distinct"] != n + len(ss):
                raise MachineryError(f"{spec}: {st['distinct']} states for {n} events of {len(ss)} scenarios")
            states += st["distinct"]
            transitions += st["generated"]
            runs.append(dict(spec=spec, scenarios=len(ss), events=n, **st))
            for f in set(printed(lines, "FAIL")):
                a, b, clause = f.split("|", 2)
                fails.append((spec, ss[int(a) - 1], int(b), clause))
        t3 = time.time()
        known = json.loads((ROOT / "known_findings.json").read_text())
        open_findings = [k for k in known.get("open", []) if k["property"] == pid]
        new, seen = [], set()
        for spec, s, k, clause in fails:
            ev = s["ev"][k - 1]
            hit = next((o["id"] for o in open_findings if o["clause"] == clause and o["case"] == ev.get("case", s["id"])), None)
            if hit:
                seen.add(hit)
            else:
                new.append((spec, s, k, clause))
        for o in open_findings:
            if o["id"] in seen:
                log(f"KNOWN-FINDING: property={pid} {o['what']}")
        replay = None
        if new:
            rep = ROOT / "replays"
            rep.mkdir(exist_ok=True)
            replay = rep / f"{pid}-{seed}-{tier}.json"
            new.sort(key=lambda f: (len(json.dumps(f[1]["ev"][f[2] - 1])), str(f[1]["id"])))
            replay.write_text(json.dumps(dict(property=pid, seed=seed, tier=tier,
                rerun=f"VERIF_SEED={seed} VERIF_TIER={tier} python3 harness/run.py {pid}",
                failures=[dict(spec=sp, scenario=s["id"], step=k, clause=c, event=s["ev"][k - 1],
                               history=[sample(e) for e in s["ev"][:k - 1]] if s.get("history") else [])
                          for sp, s, k, c in new[:40]], total=len(new)), indent=1))
            for sp, s, k, c in new[:3]:
                log(f"  {c}: scenario {s['id']} step {k}: {json.dumps(s['ev'][k - 1])[:240]}")
        ev = dict(property=pid, tier=tier, seed=seed, level=conf.get("level", "model_checking"),
            coverage=dict(states=states, transitions=transitions, traces_validated_against_impl=len(scen),
                events_judged=events, cases_enumerated_by_tlc=ncases,
                scenarios_with_several_steps=sum(len(s["ev"]) > 1 for s in scen),
                clauses_failed=len(fails), tlc_runs=runs,
                samples=[sample(s) for s in scen[:: max(1, len(scen) // 3)][:3]]),
            assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(new))
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
        log(f"{pid} {tier} seed={seed}: {len(scen)} scenarios, {events} events, {states} states; "
            f"design {t1 - t0:.1f}s drive {t2 - t1:.1f}s validate {t3 - t2:.1f}s")
        if new:
            log(f"VIOLATION property={pid} replay={replay}")
            return 1
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        try:
            classes()
        except MachineryError as e:
            log(e)
            sys.exit(2)
        sys.exit(0)
    try:
        code = check(sys.argv[1], os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    except CodeError as e:
        rep = ROOT / "replays"
        rep.mkdir(exist_ok=True)
        rep /= f"{sys.argv[1]}-exception.txt"
        rep.write_text(str(e))
        log("unexpected exception:", str(e)[-1500:])
        log(f"VIOLATION property={sys.argv[1]} replay={rep}")
        code = 1
    except MachineryError as e:
        log("MACHINERY ERROR:", e)
        code = 2
    sys.exit(code)
