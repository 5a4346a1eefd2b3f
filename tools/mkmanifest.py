"""Writes MANIFEST.json from harness/plan.py and properties.jsonl."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
from plan import PLAN  # noqa: E402

props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    if p["id"] in PLAN:
        mods = sorted({m for v in PLAN[p["id"]].values() for m, _ in v})
        emits = any(e for v in PLAN[p["id"]].values() for _, e in v)
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": "TLA+ specification checked with TLC (" + ", ".join(mods) + "); "
                         + ("replay of TLC behaviours into the code and " if emits else "")
                         + "TLC validation of traces recorded from the code (" + ", ".join(PLAN[p["id"]]) + ")",
            "level": "model_checking",
            "level_note": "The design-level statements are model checked exhaustively within the bounds of the MC module; "
                          "the code is bound to the specification by every recorded call being judged by TLC, so the "
                          "assurance about the code extends to the executed scenarios (model-generated and seeded random). "
                          "Trusts TLC, CPython and the recording harness.",
        })
    else:
        na.append({"property": p["id"], "reason": "not claimed yet: specification and harness under construction"})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "No hooks: every observation is made through public functions, the CLI and files. See DESIGN.md."}
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not claimed")
