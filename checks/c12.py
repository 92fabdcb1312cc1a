import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

LENS = [0, 1, 2, 3, 8, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 100000, 2097151, 2097152, 2097153]

def seg(rng):
    s = ["reset"]
    big = 0
    few = rng.randrange(1, 20)
    n = rng.choice([15, 15, 15, 60, 300])
    for _ in range(n):
        r = rng.random()
        q = rng.random()
        if q < 0.6: ln = rng.randrange(1, few + 2)
        elif q < 0.9 or big > 3: ln = rng.choice(LENS[:11])
        elif q < 0.995: ln = rng.choice(LENS[11:16]); big += 1
        else: ln = rng.choice(LENS[16:]); big += 2
        sd = rng.choice([0, 128, 255, rng.randrange(256), rng.randrange(few)])
        if r < 0.55: s.append("ins %d %d" % (ln, sd))
        elif r < 0.7: s.append("find %d %d" % (ln, sd))
        elif r < 0.95: s.append("view %d" % rng.randrange(10 ** 6))
        else: s.append("eq %d %d" % (rng.randrange(10 ** 6), rng.randrange(10 ** 6)))
    return s + ["view %d" % i for i in range(12)]

def run(chk):
    exe = chk.build("label")
    chk.model("MCLabel")
    k = 8 if chk.thorough else 1
    chk.known_findings("label", exe, "TraceLabelSpec")
    chk.conform("label", exe, [seg(chk.rng) for _ in range(400 * k)], "TraceLabelSpec", jobs=8)
    chk.require_kinds("ins", "find", "view", "eq")

if __name__ == "__main__":
    sys.exit(main("C12", "labels", run))
