import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def seg(rng):
    size = rng.choice([0, 1, 1, 2, 2, 2, 3])
    per = {0: 128, 1: 64, 2: 2, 3: 1}[size]
    s = ["reset %d" % size]
    n = 0
    bound = {0: 420, 1: 260}.get(size, 24)
    for _ in range(rng.randrange(8, 40)):
        r = rng.random()
        k = rng.randrange(3)
        if r < 0.3:
            m = rng.choice([1, 1, 1, 2, per - 1, per, per + 1, rng.randrange(1, 2 * per + 3)])
            m = max(1, min(m, bound - n))
            if n < bound:
                s.append("app %d %s" % (rng.randrange(5), " ".join(str(rng.randrange(1, 200)) for _ in range(m)))); n += m
        elif r < 0.4:
            m = rng.choice([1, 1, 2, per, rng.randrange(2 * per + 2), 9999 if rng.random() < 0.2 else 1])
            s.append("pop %d %d" % (m, rng.randrange(2))); n = max(0, n - m)
        elif r < 0.44: s.append("trunc %d" % rng.randrange(10 ** 6))
        elif r < 0.46: s.append("clear"); n = 0
        elif r < 0.49: s.append("move %d" % rng.randrange(2))
        elif r < 0.51: s.append("toarr"); n = 0
        elif r < 0.56: s.append("ends")
        elif r < 0.66: s.append("iter")
        elif r < 0.76: s.append("mark %d %d" % (k, rng.randrange(2)))
        elif r < 0.86: s.append("read %d %d %d" % (k, rng.choice([1, 2, per, 500]), rng.randrange(2)))
        elif r < 0.96: s.append("view %d %d" % (k, rng.choice([0, 1, 2, 9999, 9999])))
        else: s += ["back %d" % k] * rng.randrange(1, 4)
    return s + ["iter", "ends"]

def run(chk):
    exe = chk.build("sequence")
    chk.model("MCSequence")
    k = 8 if chk.thorough else 1
    chk.known_findings("sequence", exe, "TraceSequenceSpec")
    chk.conform("sequence", exe, [seg(chk.rng) for _ in range(900 * k)], "TraceSequenceSpec", jobs=8)
    chk.require_kinds("app", "pop", "trunc", "clear", "move", "toarr", "ends", "iter", "mark", "read", "view", "back")

if __name__ == "__main__":
    sys.exit(main("C09", "sequences", run))
