import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def seg(rng, n):
    s = ["reset %d" % rng.choice([2, 4, 4, 8, 16])]
    space = rng.choice([1, 3, 12, 60, 1000])
    mode = rng.choice(["mix", "mix", "up", "down", "fill"])
    ids = 0
    live = []
    for j in range(n):
        r = rng.random()
        grow = 0.75 if j < n // 2 else 0.35
        if mode == "fill":
            grow = 1.0 if j < n // 2 else 0.0
        k = {"up": j, "down": n - j}.get(mode, rng.randrange(space))
        if r < 0.7:
            if rng.random() < grow:
                s.append("ins %d %d %d" % (k, ids, rng.randrange(2))); live.append(ids); ids += 1
            elif live and rng.random() < 0.5:
                s.append("remid %d" % live.pop(rng.randrange(len(live))))
            else:
                s.append("rem %d" % rng.choice([0, 0, 1, 2, 3, rng.randrange(1000)]))
        elif r < 0.9: s.append("%s %d" % (rng.choice(["last", "first"]), k + rng.choice([0, 0, -1, 1, 5])))
        elif r < 0.94: s.append("front")
        elif r < 0.96: s.append("pop")
        elif r < 0.965: s.append(rng.choice(["clear", "move"]))
        else: s.append("iter")
    s.append("iter")
    if rng.random() < 0.4:
        s += ["pop"] * (len(live) + 3) + ["iter"]
    return s

def run(chk):
    exe = chk.build("btree")
    chk.model("MCBTree")
    k = 8 if chk.thorough else 1
    segs = [seg(chk.rng, chk.rng.choice([20, 40, 90, 150])) for _ in range(360 * k)]
    chk.known_findings("btree", exe, "TraceOrderedSpec")
    chk.conform("btree", exe, segs, "TraceOrderedSpec", jobs=8)
    chk.require_kinds("ins", "rem", "remid", "last", "first", "front", "pop", "clear", "move", "iter")

if __name__ == "__main__":
    sys.exit(main("C08", "ordered tree", run))
