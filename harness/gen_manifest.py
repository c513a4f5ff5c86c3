"""Writes MANIFEST.json from props.py."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parents[1]
sys.path.insert(0, str(ROOT / "harness"))
from props import PROPS
ids = [json.loads(l)["id"] for l in open(ROOT / "properties.jsonl")]
NOTE = ("TLC checks the specification exhaustively within its constants, enumerates the cases or histories that are "
        "replayed in the code of /repo, and judges every recorded step against the specification. Trusts TLC, the Java "
        "arithmetic behind spec/Dec.tla and the recording driver; inputs outside the enumerated and seeded ones are not seen. ")
m = dict(version=1, setup_cmd="python3 harness/run.py --setup",
    checks=[dict(property=i, quick_cmd=f"VERIF_TIER=quick python3 harness/run.py {i}",
                 thorough_cmd=f"VERIF_TIER=thorough python3 harness/run.py {i}",
                 evidence_file=f"evidence/{i}.json",
                 technique="TLA+ specification checked with TLC; generated behaviours replayed in the code and the recorded traces validated with TLC",
                 level="model_checking", level_note=NOTE + PROPS[i].get("note", "")) for i in ids if i in PROPS],
    not_applicable=[dict(property=i, reason="not built yet") for i in ids if i not in PROPS],
    notes="Specifications in spec/, drivers in harness/drivers; see DESIGN.md. No hooks in /repo.")
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
