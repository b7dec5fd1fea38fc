"""Writes /verif/MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from registry import PROPS, NOT_APPLICABLE
checks = []
for p, d in sorted(PROPS.items()):
  checks.append(dict(
      property=p, quick_cmd=f"python3 run_check.py {p} --tier quick",
      thorough_cmd=f"python3 run_check.py {p} --tier thorough",
      evidence_file=f"evidence/{p}.json",
      technique=d.get("technique", "contract-based deductive verification of the extracted code (pyvc, z3/cvc5), bounded runtime contracts where outside the verifier's reach"),
      level=d["level"], level_note=d.get("note", "see DESIGN.md")))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built"))
      for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 setup_check.py", checks=checks,
               not_applicable=na,
               notes="No hooks are added to /repo; the commits there are fixes only."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
