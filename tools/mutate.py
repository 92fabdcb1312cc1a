"""Mutation campaign: mutate.py REPO_COPY N [IDS...]: random one-line edits of the files a property is anchored in;
prints those that the property's quick check lets pass (to be judged by hand: many change no behaviour).
Works on a copy of the repository, never on /repo."""
import json, os, random, re, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo, n, ids = os.path.abspath(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
if repo == "/repo": sys.exit("not on /repo")
rng = random.Random(os.environ.get("MSEED", "1"))
RULES = [
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\bif \((.*)\) \{$", r"if (!(\1)) {"), (r"\+= ", "= "), (r" \+ ", " - "), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\bbreak;", ";"),
    (r"\bcontinue;", ";"), (r"^(\s+)[\w>.\-]+(\(.*\)| [+-]?= .*);$", r"\1;"), (r"^(\s+)(?:this->)?[\w>.\-]+\+\+;$", r"\1;"),
]
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
files = {}
for p in props:
    if ids and p["id"] not in ids: continue
    fs = set(re.findall(r"repos/[\w/.\-]+", json.dumps(p)))
    fs = [f for f in fs if os.path.isfile(os.path.join(repo, f)) and f.endswith((".cpp", ".h")) and "Win32" not in f]
    if fs: files[p["id"]] = sorted(fs)
def candidates(f):
    out, skip = [], 0
    for i, l in enumerate(open(os.path.join(repo, f), errors="replace").read().split("\n")):
        s = l.strip()
        if re.match(r"#if.*(WIN32|_MSC_VER|APPLE|IOS|MSC)", s): skip = 1
        elif skip and re.match(r"#(endif|else|elif)", s): skip = 0
        if skip or not s or s.startswith(("//", "*", "/*", "#", "PLY_ASSERT", "}", "class", "struct", "template", "using", "static_assert")): continue
        code = l.split("//")[0]
        if "PLY_STATIC_ASSERT" in code: continue
        for a, b in RULES:
            for m in re.finditer(a, code):
                new = l[:m.start()] + m.expand(b) + l[m.end():]
                if new != l: out.append((i, new))
    return out
log = open(HERE + "/mutants.log", "a")
stats = {}
for _ in range(n):
    pid = rng.choice(sorted(files))
    f = rng.choice(files[pid])
    c = candidates(f)
    if not c: continue
    i, new = rng.choice(c)
    path = os.path.join(repo, f)
    lines = open(path, errors="replace").read().split("\n")
    old = lines[i]
    lines[i] = new
    open(path, "w").write("\n".join(lines))
    t = time.time()
    try:
        r = subprocess.run(["timeout", "-k", "5", "400", "python3", "checks/%s.py" % pid.lower()], cwd=HERE, env=dict(os.environ, PLY_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    finally:
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
    viol = "VIOLATION" in r.stdout
    res = {0: "SURVIVED", 1: "caught" if viol else "odd1", 124: "timeout", 137: "timeout"}.get(r.returncode, "nobuild" if "error:" in r.stdout else "tool%d" % r.returncode)
    stats.setdefault(pid, {}).setdefault(res, 0)
    stats[pid][res] += 1
    line = "%s %s %s:%d [%ds]\n  - %s\n  + %s" % (res, pid, f.split("src/")[1], i + 1, time.time() - t, old.strip(), new.strip())
    if res not in ("caught", "nobuild"): print(line, flush=True)
    log.write(line + "\n"); log.flush()
print(stats)
