import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

OPS = {"o": ["onew", "onew", "opush", "opush", "omove", "opop", "oclear", "borrow", "ptake", "pown", "pmove", "pclear"],
       "r": ["rnew", "rnew", "rcopy", "rmove", "rlink", "rlink", "rclear", "rpopc", "rpopm"],
       "d": ["dnew", "dcopy", "dmove", "wtake", "wtake", "wcopy", "wmove", "wclear", "dmove", "dkeep", "dkeep", "wpopm"],
       "f": ["fnew", "fnew", "fmove", "fclear"],
       "s": ["snew", "snew", "scopy", "smove"]}

def seg(rng):
    s = ["reset"]
    ops = OPS[rng.choice("oorrddfs")] if rng.random() < 0.8 else sum(OPS.values(), [])
    for _ in range(rng.randrange(8, 40)):
        s.append("%s %d %d %d" % (rng.choice(ops), rng.randrange(3), rng.randrange(3), rng.randrange(4)))
    return s

def run(chk):
    exe = chk.build("own")
    chk.model("MCOwn")
    if chk.thorough: chk.model("MCOwn", "MCOwnBig", timeout=300)
    k = 8 if chk.thorough else 1
    chk.known_findings("own", exe, "TraceOwnSpec")
    chk.conform("own", exe, [seg(chk.rng) for _ in range(1500 * k)], "TraceOwnSpec", jobs=8)
    chk.require_kinds(*{o for l in OPS.values() for o in l})

if __name__ == "__main__":
    sys.exit(main("C11", "ownership", run))
