import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def seg(rng):
    s = ["reset"]
    r = lambda: rng.randrange(1, 4)
    v = lambda: rng.randrange(1, 12)
    n = lambda: rng.choice([0, 0, 1, 1, 2, 3, 5])
    for _ in range(rng.randrange(6, 45)):
        k = rng.randrange(26)
        if k <= 1: s.append("init %d %d %s" % (r(), rng.randrange(2), " ".join(str(v()) for _ in range(rng.randrange(4)))))
        elif k == 2: s.append("copy %d %d %d" % (r(), r(), rng.randrange(3)))
        elif k == 3: s.append("move %d %d %d" % (r(), r(), rng.randrange(2)))
        elif k == 4: s.append("view %d %d %d %d" % (r(), r(), rng.choice([0, 1, 2, 9]), rng.choice([0, 1, 2, 3, 9])))
        elif k <= 8: s.append("append %d %d %d" % (r(), v(), rng.randrange(3)))
        elif k == 9: s.append("extend %d %d %d %d" % (r(), r(), rng.choice([0, 0, 1]), rng.choice([99, 99, 1, 2])))
        elif k == 10: s.append("extlist %d %d %d %d %d" % (r(), rng.randrange(2), v(), v(), v()))
        elif k == 11: s.append("extmove %d %d %d" % (r(), r(), rng.randrange(2)))
        elif k == 12: s.append("concat %d %d %d %d %d" % (r(), r(), r(), rng.randrange(2), rng.randrange(2)))
        elif k <= 14: s.append("insert %d %d %d" % (r(), rng.randrange(12), rng.choice([1, 1, 2, 3, 6])))
        elif k == 15: s.append("erase %d %d %d" % (r(), rng.randrange(12), n()))
        elif k <= 17: s.append("quick %d %d %d %d" % (r(), rng.randrange(12), n(), rng.randrange(2)))
        elif k == 18: s.append("resize %d %d" % (r(), rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 17])))
        elif k == 19: s.append(rng.choice(["pop %d %d" % (r(), n()), "clear %d" % r(), "fixed %d %d" % (v(), v())]))
        elif k == 20: s.append("room %d %d" % (r(), rng.choice([0, 0, 1, 3, 4, 20])))
        elif k == 21: s.append("set %d %d %d" % (r(), rng.randrange(9), v()))
        elif k == 22: s.append("sort %d %d" % (r(), rng.randrange(2)))
        elif k == 23: s.append("find %d %d %d" % (r(), rng.choice([0, v(), v()]), rng.randrange(2)))
        elif k == 24: s.append("at %d %d" % (r(), rng.randrange(9)))
        else: s.append("eq %d %d" % (r(), r()))
    return s

def bigseg(rng):
    s = ["reset"]
    for _ in range(rng.randrange(2, 5)):
        s += ["clear 1"] + ["append 1 %d %d" % (rng.randrange(1, 12), rng.randrange(3)) for _ in range(rng.choice([3, 17, 33, 64, 65, rng.randrange(130)]))]
        for _ in range(4):
            n = rng.choice([1, 1, 2, 3, 7, 16, 40])
            s.append(rng.choice(["insert 1 %d %d", "insert 1 %d %d", "erase 1 %d %d", "quick 1 %d %d 1"]) % (rng.randrange(150), n))
            s.append(rng.choice(["resize 1 %d" % rng.randrange(140), "copy 2 1 0", "extend 2 1 0 99", "extmove 1 2 1", "room 1 0", "concat 1 1 2 0 1"]))
    return s

def sortseg(rng):
    s = ["reset"]
    for _ in range(6):
        n, m = rng.randrange(0, 40), rng.choice([2, 4, 12, 1000])
        s += ["clear 1"] + ["append 1 %d 1" % rng.randrange(1, m) for _ in range(n)] + ["sort 1 %d" % rng.randrange(2), "find 1 %d 0" % rng.randrange(1, m)]
    return s

def run(chk):
    exe = chk.build("arrays")
    chk.model("MCArraySpec")
    k = 10 if chk.thorough else 1
    segs = [seg(chk.rng) for _ in range(1500 * k)] + [sortseg(chk.rng) for _ in range(60 * k)]
    chk.known_findings("arrays", exe, "TraceArraySpec")
    chk.conform("arrays", exe, segs, "TraceArraySpec", jobs=8)
    for size in (1, 3, 24):
        small = chk.build("arrays%d" % size)
        segs = [seg(chk.rng) for _ in range(100 * k)] + [bigseg(chk.rng) for _ in range(30 * k)]
        chk.conform("arrays%d" % size, small, segs, "TraceArraySpec", jobs=8)
    chk.require_kinds("init", "copy", "move", "view", "append", "extend", "extlist", "extmove", "concat", "insert", "erase", "quick",
                      "resize", "pop", "clear", "room", "set", "sort", "find", "at", "eq", "fixed")

if __name__ == "__main__":
    sys.exit(main("C06", "arrays", run))
