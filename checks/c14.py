import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def path(rng, mode, deep=3):
    q = [rng.choice(["a", "b", "d0", "a", "b", ".c", "e.txt", "..x"] if rng.random() < 0.6 else ["a", "b"]) for _ in range(rng.choice([1, 1, 2, 2, 3, deep]))]
    r = rng.random()
    if r < 0.08: q.insert(rng.randrange(len(q) + 1), ".")
    elif r < 0.16 and (mode or len(q) > 1): q.insert(rng.randrange(0 if mode else 1, len(q) + 1), "..")
    elif r < 0.22 and mode: q = [".."] * rng.choice([1, 2, 3, 5]) + q
    elif r < 0.26 and mode == 2: q.insert(1, ".."); q.insert(1, "..")
    sep = "//" if rng.random() < 0.05 else "/"
    return sep.join(q)

def seg(rng):
    mode = rng.randrange(3)
    P = lambda: path(rng, mode)
    s = ["reset %d" % mode, "mkdirs %s" % rng.choice(["d0", "d0/a", "d0/"])]
    sizes = [0, 1, 2, 7, 100, 4095, 4096, 5000, 40000]
    hot = [P() for _ in range(3)]
    H = lambda: rng.choice(hot) if rng.random() < 0.5 else P()
    for _ in range(rng.randrange(10, 45)):
        r = rng.random()
        n, sd = rng.choice(sizes), rng.randrange(4)
        if r < 0.07: s.append("mkdir %s%s" % (H(), rng.choice(["", "", "/"])))
        elif r < 0.16: s.append("mkdirs %s%s" % (H(), rng.choice(["", "", "/", "/a/b", "/b/"])))
        elif r < 0.22: s.append("exists " + rng.choice([H(), H(), H() + "/", H() + "/a", "."]))
        elif r < 0.36: s.append("write %s %d %d %d" % (H(), n, sd, rng.randrange(3)))
        elif r < 0.46: s.append("read %s%s %d" % (H(), rng.choice(["", "", "", "", "", "/", "/b", "/../a"] if mode else [""] * 4 + ["/b"]), rng.randrange(7)))
        elif r < 0.50: s.append("stat " + H() + rng.choice(["", "", "/", "/a"]))
        elif r < 0.57: s.append("move %s %s" % (H(), H()))
        elif r < 0.61: s.append("delete " + H())
        elif r < 0.67: s.append("rmtree %s%s" % (rng.choice(["d0", H(), H()]), rng.choice(["", "", "/"])))
        elif r < 0.73: s.append("list %s %d" % (rng.choice([".", "d0", H(), H() + "/"]), rng.randrange(8)))
        elif r < 0.79: s.append("walk %s %d %s" % (rng.choice([".", "d0", H()]), rng.randrange(4), rng.choice(["", "", "a", "b d0"])))
        elif r < 0.83: s.append("chdir " + rng.choice([H(), "d0", "..", "."]))
        elif r < 0.91: s.append("save %s %d %d %d" % (H(), n, sd, rng.randrange(2)))
        elif r < 0.94: s.append("torn %s %d %d %d %d %d" % (H(), rng.choice([7, 100, 5000, 40000]), sd, rng.randrange(2), rng.choice([0, 1, 50, 4096]), rng.randrange(2)))
        elif r < 0.97: s.append("link %s %s" % (P(), rng.choice(["d0", "a", "b/a", "d0/a"])))
        else: s.append("chmod %s %d" % (H(), rng.choice([2, 2, 1, 0, 3, 3])))
    return s

def run(chk):
    exe = chk.build("fs")
    chk.model("MCFileTree")
    if chk.thorough: chk.model("MCFileTree", "MCFileTreeBig", timeout=600)
    k = 8 if chk.thorough else 1
    chk.known_findings("fs", exe, "TraceFileTree")
    chk.conform("fs", exe, [seg(chk.rng) for _ in range(700 * k)], "TraceFileTree", jobs=8)
    chk.require_kinds("mkdir", "mkdirs", "exists", "write", "read", "stat", "move", "delete", "rmtree", "list", "walk", "chdir", "save", "torn")

if __name__ == "__main__":
    sys.exit(main("C14", "file system", run))
