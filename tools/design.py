import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from design_text import HEAD, P, TAIL
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [HEAD]
for p in props:
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], P.get(p["id"], "(see check)")))
kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
out.append("## Genuine defects found\n\nFixed (one `fix:` commit each):\n")
for k in kf:
    if k["status"] == "fixed": out.append("- %s `%s` %s" % (k["property"], k["commit"], k["what"]))
op = [k for k in kf if k["status"] != "fixed"]
out.append("\nRecorded, not repaired:\n")
for k in op: out.append("- %s %s" % (k["property"], k["what"]))
if not op: out.append("- none")
out.append("\n## Planted bugs and the checks that catch them\n\nEach was confirmed with `tools/seeds.py test`: the demonstration fails with it, the\nstable tests pass, the check of its property reports it.\n\n| seed | property | needs | breaks | caught by |\n|---|---|---|---|---|")
missed = set(json.load(open(os.path.join(V, "tools/missed.json")))) if os.path.exists(os.path.join(V, "tools/missed.json")) else set()
for d in sorted(glob.glob(os.path.join(V, "seeded/*"))):
    m = json.load(open(os.path.join(d, "meta.json"))); n = os.path.basename(d)
    out.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["needs"], m["what_it_breaks"], "missed" if n in missed else m["property"]))
out.append(TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
