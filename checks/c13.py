import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def hx(b): return "x" + b.encode("latin-1").hex()
def up(p):                                   # steps up that are left over in a relative path
    n = u = 0
    for t in p.replace("\\", "/").split("/"):
        if t == "..":
            if n: n -= 1
            else: u += 1
        elif t not in ("", "."): n += 1
    return u
def isabs(w, p): return (p[:1] == "/") if not w else (p[1:2] == ":" and p[2:3] in ("/", "\\") and len(p) > 2)
def relok(w, a, d):
    if isabs(w, a) != isabs(w, d): return False
    if not isabs(w, a) and w and (a[1:2] == ":" or d[1:2] == ":"): return False
    return isabs(w, a) or up(a) <= up(d)

def text(rng, w):
    seps = "/\\" if w else "/"
    r = rng.random()
    s = ""
    if r < 0.35: s = (rng.choice(["C:", "C:", "c:", "D:"]) if w else "") + rng.choice(seps) * rng.choice([1, 1, 1, 2])
    elif r < 0.42 and w: s = rng.choice(["C:", "D:"])
    for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
        if i: s += rng.choice(seps) * rng.choice([1, 1, 1, 1, 2, 3])
        s += rng.choice(["a", "b", "ab", ".", "..", "..", "...", ".a", "a.b", "a.", "..a", "x y", "\\" if not w else "q", "\xc3\xa9", "-", "C:" if i and not w else "z", "a.tar.gz", "~"])
    if rng.random() < 0.25 and s and not (w and s[-1] == ":"): s += rng.choice(seps) * rng.choice([1, 1, 2])
    return s
def plain(w, s): return not (w and s[:1] in ("/", "\\") and s)

def seg(rng):
    w = rng.random() < 0.45
    s = ["reset %d" % w]
    for _ in range(rng.randrange(10, 40)):
        r = rng.random()
        t = text(rng, w)
        while not plain(w, t): t = text(rng, w)
        u = text(rng, w)
        if r < 0.2: s.append("cd " + hx(t))
        elif r < 0.35:
            s.append("join " + " ".join(hx(text(rng, w)) for _ in range(rng.randrange(1, 5))))
        elif r < 0.5: s.append("norm " + hx(t))
        elif r < 0.7:
            if rng.random() < 0.6: u = t.rstrip("/\\") + ("\\" if w else "/") + "k" if t.rstrip("/\\") else u
            elif rng.random() < 0.7:
                stem = t.rstrip("/\\.:")
                u = (stem[:-1] if rng.random() < 0.4 else stem + rng.choice(["q", ".b", "/c"])) + rng.choice(["", "/k", "/"]) if len(stem) > 1 and stem[-2] not in ":/\\" else u
            if not plain(w, u): u = t
            if relok(w, t, u): s.append("rel %s %s" % (hx(t), hx(u)))
            if relok(w, u, t): s.append("rel %s %s" % (hx(u), hx(t)))
        elif r < 0.85: s.append("split " + hx(t))
        elif r < 0.92: s.append("kind " + hx(rng.choice([t, u])))
        else: s.append("conv " + hx(t))
    return s

def exhaustive(w, alphabet, n, k):
    """every text up to length n alone, every pair up to length k"""
    def ok(t):
        if not plain(w, t): return False
        i = t.rfind(":")
        return i < 0 or (w and i == 1 and t.count(":") == 1 and t[0].isalpha())
    texts = [t for m in range(n + 1) for t in map("".join, itertools.product(alphabet, repeat=m)) if ok(t)]
    cmds = []
    for t in texts:
        cmds += ["norm " + hx(t), "split " + hx(t), "kind " + hx(t), "conv " + hx(t)]
    short = [t for t in texts if len(t) <= k]
    for a in short:
        for b in short:
            cmds.append("join %s %s" % (hx(a), hx(b)))
            if relok(w, a, b): cmds.append("rel %s %s" % (hx(a), hx(b)))
    return [["reset %d" % w] + cmds[i:i + 200] for i in range(0, len(cmds), 200)]

def run(chk):
    exe = chk.build("path")
    chk.model("MCPath")
    chk.model("MCPath", "MCPathWin")
    k = 8 if chk.thorough else 1
    chk.known_findings("path", exe, "TracePathSpec")
    chk.conform("paths", exe, [seg(chk.rng) for _ in range(400 * k)], "TracePathSpec", jobs=8)
    chk.conform("posix", exe, exhaustive(0, "/.a", 8 if chk.thorough else 6, 4), "TracePathSpec", jobs=8)
    chk.conform("windows", exe, exhaustive(1, "\\.a:" if not chk.thorough else "\\/.a:", 5, 4 if not chk.thorough else 3), "TracePathSpec", jobs=8)
    chk.require_kinds("cd", "join", "norm", "rel", "split", "kind", "conv")

if __name__ == "__main__":
    sys.exit(main("C13", "paths", run))
