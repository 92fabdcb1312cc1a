import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def gen_segment(rng, thorough):
    kind = rng.choice(["pipe"] * 6 + ["view"] * 2 + ["fd"])
    exp = rng.choice([7, 7, 7, 8])
    bs = 1 << exp
    n = rng.choice([0, 1, 2, 3, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs + rng.randrange(bs),
                    rng.randrange(5 * bs)])
    data = bytearray(rng.randrange(256) for _ in range(n))
    for _ in range(rng.choice([0, 2, 10, 30])):
        if n:
            data[rng.randrange(n)] = 10
    sched = rng.choice([[], [1], [2, 3], [bs], [bs - 1], [bs + 1], [rng.randrange(1, 40) for _ in range(5)],
                        [rng.randrange(1, 200) for _ in range(7)], [127, 1], [1, 127]])
    s = ["reset %s %d %s %s" % (kind, exp, hexs(data), " ".join(map(str, sched)))]
    saves = set()
    near = [1, 2, 3, 4, 5, 8, bs - 2, bs - 1, bs, bs + 1, bs + 7]
    for _ in range(rng.randrange(5, 45)):
        r = rng.random()
        k = rng.randrange(3)
        amount = rng.choice([0, 1, 1, 2, 3, rng.randrange(40), rng.choice(near), rng.randrange(2 * bs + 3), 3 * bs])
        if r < 0.18:
            s.append("try %d" % max(1, rng.choice([1, 2, 3, 4, 4, rng.choice(near), amount])))
        elif r < 0.26:
            s.append("byte")
        elif r < 0.40:
            s.append("read %d" % amount)
        elif r < 0.48:
            s.append("skip %d" % amount)
        elif r < 0.60:
            s.append("adv %d" % rng.choice([amount, 1, 5, 10 ** 6]))
        elif r < 0.65:
            s.append("pos")
        elif r < 0.74:
            s.append("save %d" % k); saves.add(k)
        elif r < 0.76:
            s.append("drop %d" % k); saves.discard(k)
        elif r < 0.83 and saves:
            s.append("rewind %d" % rng.choice(sorted(saves)))
        elif r < 0.90 and saves:
            s.append("since %d" % rng.choice(sorted(saves)))
            if rng.random() < 0.3:
                s += ["sincem %d" % k, "drop %d" % k]; saves.discard(k)
        elif r < 0.96:
            s.append("line")
        elif r < 0.968:
            d = bytes(data[:rng.choice([0, 1, 40, 300])])
            a = rng.choice([0, 1, len(d), len(d) // 2, len(d) + 1])
            b = rng.choice([0, 1, max(0, len(d) - a), max(0, len(d) - a) + 1])
            s.append("pread %s %s %d %d %s" % (rng.choice(["pipe", "pipe", "fd"]), hexs(d), a, b, " ".join(map(str, sched))))
        elif r < 0.975:
            s.append(rng.choice(["move", "massign"]))
        elif r < 0.985 and kind != "view":
            s.append("rest")
            for _ in range(rng.randrange(5)):
                s.append(rng.choice(["try 1", "byte", "read 3", "skip 2"] + ["toend %d" % j for j in sorted(saves) * 2]))
            if not saves or rng.random() < 0.3:
                break
            s.append("rewind %d" % rng.choice(sorted(saves)))
    return s

def run(chk):
    exe = chk.build("instream")
    chk.model("MCByteStream")
    beh = chk.behaviours("GenByteStream", num=1500 if chk.thorough else 150, depth=30)
    gen = []
    for h in beh:
        s = ["reset pipe 7 %s %s" % (hexs(h[0][2]), " ".join(map(str, h[0][1])))]
        s += [" ".join(map(str, c)) for c in h[1:]]
        gen.append(s)
    chk.conform("instream", exe, gen, "TraceByteStream")
    segs = [gen_segment(chk.rng, chk.thorough) for _ in range(1200 if not chk.thorough else 12000)]
    chk.conform("instream", exe, segs, "TraceByteStream")
    chk.require_kinds("try", "byte", "read", "skip", "adv", "pos", "save", "rewind", "since", "line", "rest", "toend", "pread")

if __name__ == "__main__":
    sys.exit(main("C01", "buffered reading", run))
