import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def seg(rng):
    s = ["reset %d" % rng.randrange(3)]
    n = 0
    w = rng.choice([0.25, 0.4, 0.6])
    for _ in range(rng.randrange(10, 70)):
        r = rng.random()
        if r < w and n < 100: s.append("new %d" % rng.randrange(1, 1000)); n += 1
        elif r < w + 0.15: s += ["del %d" % rng.randrange(100)] * rng.choice([1, 1, 1, 2, 5])
        elif r < w + 0.16: s.append("clear")
        elif r < 0.68: s.append("set %d %d" % (rng.randrange(100), rng.randrange(1, 1000)))
        elif r < 0.74: s.append("get %d" % rng.randrange(100))
        elif r < 0.84: s.append("iter %d" % rng.randrange(2))
        elif r < 0.92: s.append("assign %d %d" % (rng.randrange(3), rng.choice([-3, -2, -1, 0, 1, 7, 50, 99])))
        elif r < 0.96: s.append("moveh %d %d" % (rng.randrange(3), rng.randrange(3)))
        else: s.append("hget %d" % rng.randrange(3))
    return s + ["iter 1", "hget 0", "hget 1", "hget 2"]

def bigseg(rng):
    wide = rng.randrange(2)
    per = 64 if wide else 16384          # items in the allocation granularity
    limit = (3 if wide else 1) * per
    s = ["reset %d %d" % (3 + wide, rng.choice([limit, limit, limit + 1, 64 * per]) * (1024 if wide else 4))]
    n = 0
    while n < limit:
        k = rng.choice([1, 2, 3, 10, 0]) if wide else rng.choice([1, 2, 100, 1000, 0])
        if rng.random() < 0.25: k = per - n % per          # exactly up to a page boundary
        if k > 400: k = rng.choice([300, 400])
        k = min(k, limit - n)
        how = rng.randrange(3)
        s.append("bapp %d %d %d %d" % (how, k, rng.randrange(250), min(rng.choice([0, 1, 50]), limit - n - k)))
        n += k
        if rng.random() < 0.3 or n == limit: s.append("blook %s" % " ".join(str(rng.randrange(n or 1)) for _ in range(4)))
        if len(s) > 70: break
    return s + ["blook 0 1 2 3 4"]

def run(chk):
    exe = chk.build("pool")
    chk.model("MCPool")
    k = 8 if chk.thorough else 1
    chk.known_findings("pool", exe, "TracePoolSpec")
    chk.conform("pool", exe, [seg(chk.rng) for _ in range(900 * k)], "TracePoolSpec", jobs=8)
    chk.conform("bigpool", exe, [bigseg(chk.rng) for _ in range(100 * k)], "TracePoolSpec", jobs=8)
    chk.require_kinds("new", "del", "clear", "set", "get", "iter", "assign", "moveh", "hget", "bapp", "blook")

if __name__ == "__main__":
    sys.exit(main("C10", "pools", run))
