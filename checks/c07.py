import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def seg(rng):
    kind = rng.randrange(5)
    size = rng.choice([0, 4, 8, 16])
    space = rng.choice([6, 10, 20, 60])
    if kind == 0:          # identity hash: collisions modulo the table size
        st = rng.choice([1, 4, 8, 16])
        keys = [rng.randrange(4) + st * rng.randrange(8) for _ in range(space)]
    else:
        keys = list(range(space))
    s = ["reset %d %d" % (kind, size)]
    for _ in range(rng.randrange(10, 130)):
        k, key, m = rng.randrange(20), rng.choice(keys), rng.choice([1, 1, 1, 2])
        if k <= 8: s.append("ins %d %d %d" % (m, key, rng.randrange(1000)))
        elif k <= 13: s.append("erase %d %d %d" % (m, key, 0 if kind == 4 or rng.random() < .8 else 1))
        elif k <= 16: s.append("find %d %d %d" % (m, key, rng.randrange(2)))
        elif k <= 18: s.append("iter %d %d" % (m, rng.randrange(2)))
        elif rng.random() < 0.5: s.append("move %d %d" % (m, rng.randrange(2)))
        elif rng.random() < 0.2: s.append("renew %d %d" % (m, rng.choice([0, 4, 32])))
    for m in (1, 2):
        s += ["find %d %d 0" % (m, k) for k in sorted(set(keys))] + ["iter %d 0" % m]
    return s

def big(rng, n):
    """growth and shrinking over several table sizes"""
    kind = rng.choice([2, 3, 3, 4])
    s = ["reset %d 0" % kind]
    live = []
    for i in range(n):
        s.append("ins 1 %d %d" % (i * 3, i % 997)); live.append(i * 3)
        if rng.random() < 0.3:
            k = live.pop(rng.randrange(len(live))); s.append("erase 1 %d 0" % k)
    s.append("iter 1 0")
    rng.shuffle(live)
    for k in live[: len(live) * 3 // 4]:
        s.append("erase 1 %d 0" % k)
    s += ["find 1 %d 1" % k for k in live] + ["iter 1 1"]
    return s

def far(rng, size):
    """distances in a chain near the limit of a byte: identity hash, one bucket, neighbours all taken"""
    s = ["reset 0 %d" % size]
    b = rng.randrange(size)
    gaps = rng.choice([[1, 128, 127], [1, 127, 128], [1, 128, 128], [1, 100, 100, 55], [128, 127], [2, 126, 128], [1, 64, 64, 127]])
    keys, at = [b], b
    s.append("ins 1 %d 1" % b)
    used = {b % size}
    for j, g in enumerate(gaps):
        for c in range(at + 1, at + g):
            if c % size not in used:
                used.add(c % size); s.append("ins 1 %d 2" % (c % size))
        at += g
        k = b + size * (j + 1); keys.append(k); used.add(at % size)
        s.append("ins 1 %d %d" % (k, 10 + j))
    order = keys[1:]
    rng.shuffle(order)
    if rng.random() < 0.5:
        order = keys[2:] + keys[:2]
    for k in order:
        s += ["erase 1 %d 0" % k, "find 1 %d 0" % keys[-1], "find 1 %d 0" % keys[1], "iter 1 0"]
        if rng.random() < 0.3:
            s.append("ins 1 %d 77" % k)
    return s

def run(chk):
    exe = chk.build("hashmap")
    chk.model("Leapfrog", "Leapfrog")
    chk.model("Leapfrog", "Leapfrog8")
    k = 8 if chk.thorough else 1
    segs = [seg(chk.rng) for _ in range(700 * k)] + [big(chk.rng, 400) for _ in range(6 * k)] + [far(chk.rng, chk.rng.choice([512, 1024])) for _ in range(16 * k)]
    chk.known_findings("hashmap", exe, "TraceMapSpec")
    chk.conform("hashmap", exe, segs, "TraceMapSpec", jobs=8)
    chk.require_kinds("ins", "find", "erase", "renew", "move", "iter")

if __name__ == "__main__":
    sys.exit(main("C07", "hash map", run))
