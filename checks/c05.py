import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

CH = ["a", "b", "B", "Z", "z", "{", "`", "@", "[", "0", "9", " ", " ", "\t", "\n", "\r", ",", ",", ";", "é", "€", "😀", "\x00", "\x0b", "\x7f"]
SEP = [44, 32, 97, 59, 0, 0xc3]

def text(rng, n):
    b = "".join(rng.choice(CH) for _ in range(n)).encode()
    if rng.random() < 0.12:
        i = rng.randrange(len(b) + 1)
        b = b[:i] + rng.choice([b"\x80", b"\xff", b"\xe2\x82", b"\xf0\x9f\x98", b"\xc3", b"\xbf\xbf\xbf\xbf\xbf"]) + b[i:]
    return b

def seg(rng):
    s = ["reset"]
    r = lambda: rng.randrange(1, 5)
    h = lambda: rng.randrange(1, 3)
    n = lambda: rng.choice([0, 0, 1, 2, 3, 5, 9, 17])
    for _ in range(rng.randrange(6, 40)):
        k = rng.randrange(32)
        if k <= 5: s.append("set %d %s %d" % (r(), hexs(text(rng, n())), rng.randrange(3)))
        elif k == 6: s.append("copy %d %d %d" % (r(), r(), rng.randrange(2)))
        elif k == 7:
            a, b = rng.sample([1, 2, 3, 4], 2); s.append("move %d %d %d" % (a, b, rng.randrange(2)))
        elif k <= 9: s.append("part %d %d %d %d" % (r(), r(), rng.choice([0, 0, 1, 2, 5, 99]), rng.choice([0, 1, 2, 4, 99])))
        elif k == 10: s.append("%s %d %d %d" % (rng.choice(["right", "short"]), r(), r(), rng.choice([0, 1, 2, 3, 99])))
        elif k == 11: s.append("concat %d %d %d" % (r(), r(), r()))
        elif k == 12: s.append("append %d %d" % (r(), r()))
        elif k == 13: s.append("repeat %d %d %d" % (r(), r(), rng.choice([0, 1, 2, 3])))
        elif k == 14: s.append("resize %d %d" % (r(), rng.choice([0, 1, 3, 8, 20])))
        elif k == 15: s.append(rng.choice(["clear %d" % r(), "poke %d %d %d" % (r(), rng.randrange(20), rng.randrange(256))]))
        elif k <= 19: s.append("derive %s %d %d" % (rng.choice(["upper", "lower", "rev", "filter", "withnul", "withoutnul", "revutf8", "revutf8"]), r(), r()))
        elif k == 20: s.append("trim %d %d %s %d %d" % (r(), r(), rng.choice(["white", "white", "digit", "letter"]), rng.randrange(2), rng.randrange(2)))
        elif k == 21: s.append("join %d %d %s" % (r(), r(), " ".join(str(r()) for _ in range(rng.randrange(5)))))
        elif k == 22: s.append("split %d %d" % (r(), rng.choice(SEP)))
        elif k == 23: s.append("%s %d %d %d" % (rng.choice(["find", "rfind"]), r(), rng.choice(SEP), rng.choice([0, 0, 1, 2, 5, 99])))
        elif k == 24: s.append("%s %d %s %d" % (rng.choice(["findp", "rfindp"]), r(), rng.choice(["white", "digit", "letter"]), rng.choice([0, 0, 1, 3, 99])))
        elif k <= 26: s.append("cmp %d %d" % (r(), r()))
        elif k == 27: s.append(rng.choice(["view %d %d %d" % (r(), rng.randrange(4), rng.randrange(4)), "at %d %d" % (r(), rng.randrange(9))]))
        elif k == 28: s.append(rng.choice(["hset %d %s" % (h(), hexs(text(rng, n()))), "htake %d %d" % (h(), r())]))
        elif k == 29: s.append("hcopy %d %d" % (h(), h()))
        elif k == 30:
            a = h(); s.append("hmove %d %d" % (a, 3 - a))
        else: s.append("hgive %d %d" % (r(), h()))
    return s

def run(chk):
    exe = chk.build("strings")
    chk.model("MCStringAlgebra")
    segs = [seg(chk.rng) for _ in range(12000 if chk.thorough else 1500)]
    chk.known_findings("strings", exe, "TraceStringAlgebra")
    chk.conform("strings", exe, segs, "TraceStringAlgebra", jobs=8)
    chk.require_kinds("set", "copy", "move", "part", "right", "short", "concat", "append", "repeat", "resize", "derive", "trim", "join",
                      "split", "find", "rfind", "findp", "rfindp", "cmp", "view", "at", "hset", "htake", "hcopy", "hmove", "hgive")

if __name__ == "__main__":
    sys.exit(main("C05", "string algebra", run))
