"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_YET
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{H}/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i not in PROPS:
        na.append({"property": i, "reason": NOT_YET[i]}); continue
    P = PROPS[i]
    checks.append({"property": i, "quick_cmd": f"python3 tools/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 tools/check.py {i}",
        "evidence_file": f"evidence/{i}.json", "technique": P.get("technique", "contract-based deductive verification (Verus/Z3) of functions extracted from /repo on every run; replay search for the failing input"),
        "level": P["level"], "level_note": P["note"]})
json.dump({"version": 1, "setup_cmd": "python3 tools/vx.py --check && cargo --version",
  "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: contracts live in /verif/contracts and are attached to the functions extracted from /repo's working tree on every run. known-findings.txt lists defects that were repaired."},
  open(f"{H}/MANIFEST.json", "w"), indent=1)
