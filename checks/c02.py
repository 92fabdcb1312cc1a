import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def gen(rng):
    kind = rng.choice(["pipe"] * 5 + ["mem"] * 4 + ["view"] * 2 + ["file"] * 2)
    exp = rng.choice([7, 7, 7, 8])
    bs = 1 << exp
    cap = -1
    if kind == "pipe" and rng.random() < 0.5:
        cap = rng.choice([0, 1, bs - 1, bs, bs + 1, rng.randrange(4 * bs), 2 * bs, 3 * bs])
    if kind == "view":
        cap = rng.choice([0, 1, 2, 10, rng.randrange(300)])
    sched = rng.choice([[], [1], [3, 1], [bs - 1], [rng.randrange(1, 200) for _ in range(4)]])
    s = ["reset %s %d %d %d %d %s" % (kind, exp, cap, rng.randrange(2), int(rng.random() < 0.9), " ".join(map(str, sched)))]
    edge = [1, 2, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 3 * bs - 1]
    for _ in range(rng.randrange(3, 40)):
        r = rng.random()
        n = rng.choice([0, 1, 2, 3, rng.randrange(40), rng.choice(edge), rng.randrange(2 * bs)])
        if kind == "view" and rng.random() < 0.6:
            n = rng.randrange(0, 8)
        if r < 0.3:
            s.append("fillwrite %d %d" % (n, rng.randrange(200)))
        elif r < 0.4:
            s.append("write %s" % hexs(rng.randrange(256) for _ in range(rng.randrange(12))))
        elif r < 0.5:
            s.append("byte %d" % rng.randrange(256))
        elif r < 0.55:
            s.append("print %s" % hexs(rng.randrange(256) for _ in range(rng.randrange(9))))
        elif r < 0.67:
            s.append("try %d %d" % (max(1, n), rng.choice([n, n // 2, 0, 10 ** 6, 1])))
        elif r < 0.74:
            s.append("make %d %d" % (max(1, n), rng.choice([n, n // 2, 0, 10 ** 6, 1])))
        elif r < 0.82:
            s.append("flush %d" % rng.randrange(2))
        elif r < 0.88:
            s.append("pos")
        elif r < 0.91:
            s.append(rng.choice(["move", "massign"]))
        else:
            s.append({"mem": "head", "view": "view"}.get(kind, "pos"))
    s.append(rng.choice(["str", "close"]) if kind == "mem" else "close")
    return s

def run(chk):
    exe = chk.build("outstream")
    chk.model("MCOutputStream")
    segs = [gen(chk.rng) for _ in range(20000 if chk.thorough else 2500)]
    chk.conform("outstream", exe, segs, "TraceOutputStream")
    chk.require_kinds("write", "try", "make", "flush", "pos", "move", "head", "contents", "str", "close")

if __name__ == "__main__":
    sys.exit(main("C02", "buffered writing", run))
