"""Writes /verif/MANIFEST.json from properties.jsonl and the existing property modules."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)
    i = p["id"]
    if i in NA or not os.path.exists(os.path.join(V, "harness/props", i.lower() + ".py")):
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run.py {i} --tier quick",
        "thorough_cmd": f"python3 run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "TLA+ model checked with TLC; TLC-generated and sampled scenarios replayed "
                     "on the real code, recorded traces judged by a TLA+ trace specification",
        "level": "model_checking",
        "level_note": "The design is checked exhaustively within the constants of the .cfg files; the code "
                      "is checked on the executions of this run, each call judged by TLC. Trusts TLC, the "
                      "encoding of observed floats as exact rationals (harness/core.py) and numpy/scipy/"
                      "shapely as used to set up inputs.",
    })
m = {"version": 1, "setup_cmd": "python3 harness/setup.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the abstract state is observable through the public API."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
