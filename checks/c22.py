import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

N = 7

def recipe(rng, j, n):
    """Jobs cook later ones only; they refer to any."""
    ops = []
    refs = rng.sample(range(1, n + 1), rng.choice([0, 0, 1, 1, 2, min(3, n)]))
    ops += ["r%d" % k for k in refs]
    for _ in range(rng.choice([0, 1, 1, 2])):
        ops.append(rng.choice(["v%d" % rng.randrange(50), "d%d" % rng.randrange(1, 4), "d%d" % rng.randrange(1, 4)]
                              + (["o%d" % rng.randrange(j + 1, n + 1)] * 2 + ["c%d" % rng.randrange(j + 1, n + 1)] if j < n else [])
                              + (["s%d" % rng.randrange(1, 4)] if rng.random() < 0.2 else [])
                              + (["a"] if rng.random() < 0.3 else [])))
    rng.shuffle(ops)
    return hexs(";".join(ops).encode())

def seg(rng):
    n = rng.choice([2, 3, 4, 5, N])
    times = list(range(1, 200))      # every write leaves a time of its own, not always a later one
    if rng.random() < 0.5: rng.shuffle(times)
    tick = lambda: times.pop(0)
    def put():
        if rng.random() < 0.65:
            j = rng.randrange(1, n + 1)
            return "put j %d %d %s" % (j, tick(), recipe(rng, j, n))
        return "put d %d %d %s" % (rng.randrange(1, 4), tick(), hexs(b"v%d" % rng.randrange(100)))
    s = ["reset %d" % rng.randrange(2)]
    for j in range(1, n + 1):
        if rng.random() < 0.93: s.append("put j %d %d %s" % (j, tick(), recipe(rng, j, n)))
    for d in range(1, 4):
        if rng.random() < 0.8: s.append("put d %d %d %s" % (d, tick(), hexs(b"v%d" % rng.randrange(100))))
    roots = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        s.append("begin")
        if not roots or rng.random() < 0.4:
            roots = [str(rng.randrange(1, n + 1)) for _ in range(rng.choice([0, 1, 1, 2]))]
            if rng.random() < 0.5: s.append("roots " + " ".join(roots))
        for r in roots: s.append("cook %d %s %d" % (rng.choice([0, 0, 1]), r, rng.choice([0, 0, 0, 1, 2])))
        for _ in range(rng.choice([0, 1, 3, 6])):
            x = rng.random()
            j, k = rng.randrange(1, n + 1), rng.randrange(1, 4)
            if x < 0.4: s.append("cook %d %d %d" % (rng.choice([0, 0, k]), j, rng.choice([0, 0, 1, 2])))
            elif x < 0.5: s.append("hold %d %d" % (k, j))
            elif x < 0.6: s.append("drop %d" % k)
            elif x < 0.72: s.append("deferred")
            elif x < 0.82: s.append("isdone %d" % k)
            elif x < 0.9: s.append("roots " + " ".join(roots))
            else: s.append("roots " + " ".join(str(rng.randrange(1, n + 1)) for _ in range(rng.choice([0, 1, 2, 3]))))
            if rng.random() < 0.05: s.append(put())
        s.append("deferred")
        if rng.random() < 0.6: s.append("roots " + " ".join(roots))
        for k in (1, 2, 3):
            if rng.random() < 0.4: s.append("drop %d" % k)
        s.append("end")
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            if rng.random() < 0.85: s.append(put())
            else: s.append("gone %s %d" % rng.choice([("j", rng.randrange(1, n + 1)), ("d", rng.randrange(1, 4))]))
    if rng.random() < 0.4: s.append("bye")
    return s

def run(chk):
    exe = chk.build("cook", ["cook"])
    chk.model("MCCook", coverage=False)
    k = 10 if chk.thorough else 1
    chk.known_findings("cook", exe, "TraceCookSpec")
    chk.conform("cook", exe, [seg(chk.rng) for _ in range(900 * k)], "TraceCookSpec", jobs=8)
    chk.require_kinds("put", "gone", "begin", "cook", "hold", "drop", "deferred", "roots", "isdone", "end", "bye")

if __name__ == "__main__":
    sys.exit(main("C22", "incremental cooking", run))
