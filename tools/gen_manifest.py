#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}  # id -> reason it is not claimed
checks, na = [], []
for pid in ids:
    path = os.path.join(V, "mc", "checks", pid.lower() + ".py")
    if pid in NA or not os.path.exists(path):
        na.append({"property": pid, "reason": NA.get(pid, "no check is built for it yet")})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    bounds = consts.get("BOUNDS", {})
    note = "Exhaustive within: quick: %s. Thorough: %s. Assumes: %s." % (
        bounds.get("quick", ""), bounds.get("thorough", ""), "; ".join(consts.get("ASSUMPTIONS", ["nothing further"])))
    checks.append({
        "property": pid,
        "quick_cmd": "./check %s --tier quick" % pid,
        "thorough_cmd": "./check %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": consts.get("TECHNIQUE", "bounded exhaustive exploration of the real code against a reference model"),
        "level": consts["LEVEL"],
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: the checks import /repo/src and place their scheduling and fault points from outside.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
