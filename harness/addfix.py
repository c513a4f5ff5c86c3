"""addfix.py PROPERTY text: records the last commit of /repo as a fix."""
import json, subprocess, sys, pathlib
p = pathlib.Path(__file__).resolve().parents[1] / "known_findings.json"
k = json.loads(p.read_text())
h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h"], text=True).strip()[:7]
k["fixed"].append(f"fixed: property={sys.argv[1]} {h} {sys.argv[2]}")
p.write_text(json.dumps(k, indent=1) + "\n")
