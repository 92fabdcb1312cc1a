import sys, os, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

class Prog:
    """One program: thread 0 starts and joins the others and never waits for anything else, and
    provides whatever they wait for, so that every schedule ends."""
    def __init__(self, rng):
        self.rng = rng
        self.lines = []
        self.n = rng.choice([1, 2, 2, 3, 3, 4, 4])
        self.focus = rng.choice(["mutex", "lazy", "spin", "sem", "rw", "ev", "cv", "await", "atomic", "pub", "tl", "spawn", "mix", "mix"])
        self.waits = {"sem": {1: 0, 2: 0}, "take": {1: 0, 2: 0}, "await": {3: 0, 4: 0}, "ev": set()}
        self.pubs = 0

    def op(self, t, name, k=0, a=0, b=0):
        self.lines.append("t %d %s %d %d %d" % (t, name, k, a, b))

    def kind(self):
        return self.focus if self.focus != "mix" and self.rng.random() < 0.7 else self.rng.choice(
            ["mutex", "lazy", "spin", "rw", "atomic", "pub", "tl", "sem", "ev", "cv", "await"])

    def nowait(self, t, held=0, depth=0):
        """an operation, or a section, that ends by itself; held: highest mutex locked"""
        r = self.rng
        k = self.kind()
        if k in ("mutex", "lazy", "spin", "sem", "ev", "cv", "await", "spawn"):
            m = {"lazy": 3, "spin": 4}.get(k) or r.choice([1, 2, 3, 4, 5])
            if m <= held: m = None
            x = r.random()
            if m is None: self.op(t, "tid") if not held else self.op(t, "held", held)
            elif x < 0.4 or depth > 1: self.op(t, "inc", m)
            elif x < 0.6 and m in (1, 2, 5):
                self.op(t, "trylock", m)
                for _ in range(r.randrange(3)): self.op(t, "held", m)
                self.op(t, "unlock", m)
            else:
                self.op(t, "lock", m)
                again = m in (1, 2, 3, 5) and r.random() < 0.4
                self.op(t, "held", m)
                if again:
                    self.op(t, "lock", m) if r.random() < 0.5 else self.op(t, "inc", m)
                    again = self.lines[-1].split()[2] == "lock"
                    if again: self.op(t, "unlock", m)
                    self.op(t, "held", m)
                if r.random() < 0.5: self.nowait(t, m, depth + 1)
                self.op(t, "held", m)
                self.op(t, "unlock", m)
        elif k == "rw":
            x = r.random()
            if x < 0.3 or held: self.op(t, "rget", 2) if x < 0.2 else self.op(t, "xinc", 2) if not held else self.op(t, "held", held)
            elif x < 0.5: self.op(t, "xinc", 2)
            elif x < 0.75:
                self.op(t, "rlock", 2); self.op(t, "rheld", 2); self.op(t, "rheld", 2); self.op(t, "runlock", 2)
            else:
                self.op(t, "xlock", 2); self.op(t, "xheld", 2); self.op(t, "xheld", 2); self.op(t, "xunlock", 2)
        elif k == "atomic":
            o = r.choice(["load", "store", "xchg", "add", "sub", "and", "or", "cas", "casx", "casw", "add", "cas"])
            small = lambda: r.choice([0, 1, 2, 3, 1, 2, 128, 255, r.randrange(256)])
            if o in ("cas", "casx", "casw"): self.op(t, o, r.choice([1, 1, 2]), small(), small())
            else: self.op(t, o, r.choice([1, 1, 2]), small(), r.randrange(4))
        elif k == "pub": self.op(t, "subs", 3, 0, r.randrange(4))
        else:
            x, i = r.random(), r.choice([1, 2])
            if x < 0.35: self.op(t, "tset", i, r.choice([0, 1, 7, 255]))
            elif x < 0.65 or depth > 1: self.op(t, "tget", i)
            else:
                self.op(t, "tpush", i, r.randrange(256))
                for _ in range(r.randrange(3)): self.nowait(t, held, depth + 1)
                self.op(t, "tget", i)
                self.op(t, "tpop", i)
                self.op(t, "tget", i)

    def waiting(self, t, driver=False):
        """an operation that may have to wait for something that thread 0 provides"""
        r = self.rng
        k = {"sem": "sem", "ev": "ev", "cv": "take", "await": "await"}.get(self.kind()) or r.choice(["sem", "ev", "take", "await"])
        if k == "sem":
            i = r.choice([1, 1, 2]); self.waits["sem"][i] += 1; self.op(t, "swait", i)
        elif k == "ev":
            i = r.choice([1, 2]); self.waits["ev"].add(i); self.op(t, "ewait", i)
        elif k == "take":
            i = r.choice([1, 2]); self.waits["take"][i] += 1; self.op(t, "take", i, r.choice([0, 0, 0, 1, 3000]))
        else:
            i = r.choice([3, 4]); v = r.choice([1, 2, 3])
            self.waits["await"][i] = max(self.waits["await"][i], v); self.op(t, "await", i, v, r.choice([0, 0, 1, 3000]))

    def make(self):
        r = self.rng
        early = [t for t in range(1, self.n + 1) if r.random() < (0.6 if self.focus == "spawn" else 0.1)]
        for t in early:
            self.op(t, "tid")
            for _ in range(r.randrange(4)): self.nowait(t)
            self.lines.append("t %d end" % t)
        pair = self.focus == "rw" and self.n >= 2
        for t in range(1, self.n + 1):
            if r.random() < 0.3: self.op(t, "tid")
            if self.focus == "lazy": self.op(t, "inc", 3)
            for j in range(r.choice([1, 2, 4, 6])):
                if self.focus in ("sem", "ev", "cv", "await") and r.random() < 0.6 or r.random() < 0.08: self.waiting(t)
                else: self.nowait(t)
                if pair and t <= 2 and j == 0: self.op(t, "rboth", 1, 0, 1)
            self.lines.append("t %d end" % t)
        # thread 0
        gate = r.random() < 0.6 and not early
        for t in early:
            self.op(0, "spawn", t)
            if r.random() < 0.5: self.op(0, "valid", t)
        for t in early:
            self.op(0, "join", t)
            if r.random() < 0.3: self.op(0, "valid", t)
        todo = []
        for t in range(1, self.n + 1): self.op(0, "spawn", t)
        if gate: self.op(0, "gate")
        for i in (1, 2):
            n = self.waits["sem"][i] + r.choice([0, 0, 1])
            while n > 0:
                a = r.choice([1, 1, 2, 3, n]); a = min(a, n); n -= a
                todo.append(("ssignal", i, a, 0))
            todo += [("give", i, r.randrange(2), 0)] * self.waits["take"][i]
            todo += [("give", i + 2, 1, 0)] * self.waits["await"][i + 2]
        if self.focus == "pub": 
            self.pubs = r.choice([1, 3, 8])
        r.shuffle(todo)
        for v in range(1, self.pubs + 1): todo.insert(r.randrange(len(todo) + 1), None)
        v = 0
        evs = sorted(self.waits["ev"] | ({1} if self.focus == "ev" else set()))
        for x in todo:
            if x is None:
                v += 1; self.op(0, "pub", 3, v, r.randrange(5))
            else: self.op(0, x[0], x[1], x[2], x[3])
            if r.random() < 0.3: self.nowait(0)
        for i in evs:
            for _ in range(r.randrange(3)):
                self.op(0, "eset", i); self.op(0, "ereset", i)
            self.op(0, "eset", i)
        for _ in range(r.randrange(3)): self.nowait(0)
        for t in range(1, self.n + 1):
            self.op(0, "join", t)
        if r.random() < 0.2: self.op(0, "valid", 1)
        return ["reset %d" % r.randrange(1 << 20)] + self.lines + ["go %d" % (1 if gate else 0)]

def timing(rng, k, ms, late):
    return ["reset 1", "t 0 time %d %d %d" % (k, ms, late), "go 0"]

def run(chk):
    exe = chk.build("sync", flavour="plain")
    chk.model("MCSync")
    k = 6 if chk.thorough else 1
    chk.known_findings("sync", exe, "TraceSyncSpec")
    times = [timing(chk.rng, i % 4, [1, 7, 20, 300, 1003][i % 5] if i < 5 or chk.thorough else chk.rng.choice([1, 3, 20]), i % 3 == 1) for i in range(10)]
    times += [timing(chk.rng, 1, 600, 1), timing(chk.rng, 2, 400, 1)]
    segs = [Prog(chk.rng).make() for _ in range(700 * k)]
    chk.conform("sync", exe, segs + times, "TraceSyncSpec", jobs=8, nondet=True, timeout=240)
    # the same kind of programs where every unordered access is noticed
    tsan = chk.build("sync", flavour="tsan")
    probe = subprocess.run([tsan], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if probe.returncode == 99:          # it starts here: it complains about missing arguments
        segs = [Prog(chk.rng).make() for _ in range(300 * k)]
        chk.conform("synctsan", tsan, segs, "TraceSyncSpec", jobs=8, nondet=True, timeout=240)
    else:
        chk.cov["samples"].append({"note": "thread sanitizer does not start here"})
    chk.require_kinds("c", "r")

if __name__ == "__main__":
    sys.exit(main("C15", "threads", run))
