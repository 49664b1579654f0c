"""Writes MANIFEST.json from the rules that exist and the reasons below."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, R)
from tools.techniques import TECH, NA
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "sa", "rules", i.lower() + ".py")) and i in TECH:
        tech, note = TECH[i]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough",
                       "technique": tech, "level": "other", "level_note": note, "evidence_file": f"evidence/{i}.json"})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Static analysis only: clang emits LLVM IR (with debug types) for every source file of /repo, and the rules in sa/rules decide the properties on it. No /repo hooks."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
