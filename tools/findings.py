#!/usr/bin/env python3
"""Writes known_findings.json: one 'fixed' entry per fix: commit of /repo, plus the open ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = json.load(open(V + "/tools/fix_props.json"))     # commit subject prefix -> property
OPEN = json.load(open(V + "/tools/findings_open.json"))
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    ps = [v for k, v in PROP.items() if s[5:].startswith(k)]
    assert ps, "no property for: " + s
    out.append({"property": ps[0], "status": "fixed", "commit": h, "what": s[5:],
                "line": "fixed: property=%s %s %s" % (ps[0], h, s[5:])})
json.dump({"findings": OPEN + out}, open(V + "/known_findings.json", "w"), indent=1)
print(len(out), "fixed,", len(OPEN), "open")
