"""Write MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from specs import SPECS, NOT_APPLICABLE, HOOKS, NOTE
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        assert i not in NOT_APPLICABLE
        checks.append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
            "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
            "technique": s.get("technique", "symbolic execution of the compiled code's LLVM IR with an SMT solver (z3)"),
            "level": "model_checking",
            "level_note": s.get("note", NOTE),
        })
    else:
        assert i in NOT_APPLICABLE, i
m = {"version": 1, "setup_cmd": "bash tools/setup.sh"}
if HOOKS:
    m["hooks"] = HOOKS
m["checks"] = checks
m["not_applicable"] = [{"property": p["id"], "reason": NOT_APPLICABLE[p["id"]]} for p in props if p["id"] in NOT_APPLICABLE]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(m["not_applicable"]), "not applicable")
