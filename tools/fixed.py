"""fixed.py PROPERTY [COMMIT...]: note fix commits of /repo in known_findings.json (run by hand)"""
import json, subprocess, sys
f = "/verif/known_findings.json"
d = json.load(open(f))
for c in sys.argv[2:] or ["HEAD"]:
    h, s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%h %s", c], capture_output=True, text=True).stdout.strip().split(" ", 1)
    e = "fixed: property=%s %s %s" % (sys.argv[1], h, s.replace("fix: ", ""))
    if e not in d["fixed"]:
        d["fixed"].append(e)
json.dump(d, open(f, "w"), indent=1)
