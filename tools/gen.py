#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif; both outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
P = []
def prop(id, title, statement, over, qtext, why, files, mech, obs=(), level=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": qtext}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(obs), "hook_needed": None}, _na=na))
exec(open(os.path.join(V, "tools", "props.py")).read())
from checks import CHECKS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    if i in CHECKS and not p["_na"]:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": c.get("technique", "symbolic execution of the compiled C (LLVM IR) with z3 deciding branches and assertions"),
            "level": "model_checking", "level_note": "all values within: " + c.get("bounds", p["quantifier"]["text"])})
    else: m["not_applicable"].append({"property": i, "reason": p["_na"] or "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "claimed")
