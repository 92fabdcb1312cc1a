import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def hx(b): return "x" + b.encode("latin-1").hex()
INTS = ["bool", "s8", "s16", "s32", "s64", "u8", "u16", "u32", "u64"]
FLTS = ["float", "double"]
PTR = ("owned", "raw")

class Types:
    """A table of types; entry i is [kind, name, t, n, e, members], counted from 1."""
    def __init__(self, rng, pure, kinds, change=True):
        self.rng, self.pure, self.kinds, self.change = rng, pure, kinds, change
        self.ty = [None]
        self.names = 0
    def add(self, k, name="-", t=0, n=0, e=0, m=()):
        self.ty.append([k, name, t, n, e, list(m)])
        return len(self.ty) - 1
    def script(self):
        return ["type %s %s %d %d %d %s" % (k, s, t, n, e, " ".join("%s %d" % x for x in m)) for k, s, t, n, e, m in self.ty[1:]] + ["types"]
    def name(self, p):
        self.names += 1
        return p + str(self.names)
    def prim(self):
        return self.add(self.rng.choice([k for k in INTS + FLTS if k in self.kinds]))
    def enum(self, seq=False):
        rng = self.rng
        size = rng.choice([1, 2, 4])
        n = rng.choice([1, 2, 3, 5])
        top = {1: 255, 2: 65535, 4: 2000000000}[size]
        vals = list(range(n)) if seq else rng.sample([0, 1, 2, 3, 4, 7, 100, top, top - 1, top // 2], n)
        ids = rng.sample(["A", "B", "C", "D", "E", "AA", "a"], n)
        m = list(zip(ids, vals))
        if not seq and rng.random() < 0.2: m.append(("Z", vals[0]))  # a second name for a value
        return self.add("enum", "E%d" % rng.randrange(3), n=size, m=m)
    def struct(self, d, n=None):
        rng = self.rng
        n = rng.choice([0, 1, 2, 3, 5]) if n is None else n
        i = self.add("struct", "S%d" % rng.randrange(4))
        ms = rng.sample(["a", "b", "c", "d", "e", "aa", "bb", "x_y"], n)
        self.ty[i][5] = [(m, self.any(d - 1, i)) for m in ms]
        if rng.random() < 0.15: self.ty[i][3] = self.add(rng.choice(["u8", "string"]))  # a template parameter
        return i
    def any(self, d, up=0):
        rng = self.rng
        leaf = [k for k in ("prim", "string", "enum") if k == "prim" or k in self.kinds]
        deep = [k for k in ("struct", "fixed", "array", "eia", "switch", "owned", "typed", "any", "self") if k in self.kinds]
        k = rng.choice(leaf if d <= 0 or not deep else leaf + deep + deep)
        if k == "prim": return self.prim()
        if k == "enum": return self.enum()
        if k == "string": return self.add("string")
        if k == "struct": return self.struct(d)
        if k == "fixed": return self.add("fixed", t=self.any(d - 1), n=rng.choice([1, 2, 3]))
        if k == "array": return self.add("array", t=self.any(d - 1))
        if k == "eia": return self.add("eia", t=self.any(d - 1), e=self.enum(True))
        if k == "owned": return self.add("owned", t=self.struct(d - 1))
        if k == "switch":
            n = rng.choice([1, 2, 3])
            return self.add("switch", "W", m=[(s, self.struct(d - 1)) for s in rng.sample(["p", "q", "r", "s"], n)])
        if k == "self":  # the type contains itself, through an array
            return self.add("array", t=up) if up else self.prim()
        return self.add(k)
    def item(self, d):  # what a typed array can bring along
        rng = self.rng
        k = rng.choice(["prim", "prim", "string"] + (["struct", "struct", "array", "fixed"] if d > 0 else []))
        if k == "prim": return self.prim()
        if k == "string": return self.add("string")
        if k == "array": return self.add("array", t=self.item(d - 1))
        if k == "fixed": return self.add("fixed", t=self.item(d - 1), n=rng.choice([1, 2, 3]))
        return self.add("struct", "T%d" % rng.randrange(3), m=[(m, self.item(d - 1)) for m in rng.sample(["x", "y", "z", "w"], rng.choice([0, 1, 2, 3]))])
    def has(self, i, kinds, seen=None):
        seen = seen if seen is not None else set()
        if i in seen or i == 0: return False
        seen.add(i)
        k, s, t, n, e, m = self.ty[i]
        if k in kinds or i in kinds: return True
        if k in ("struct", "switch"): return any(self.has(x, kinds, seen) for _, x in m)
        return k in ("fixed", "array", "eia", "owned") and self.has(t, kinds, seen)
    def mutate(self, i, keep=(), drop=(), memo=None, top=True):
        """The type after an edit. keep: what contains these stays; drop: members that contain these go."""
        rng = self.rng
        memo = {} if memo is None else memo
        if i in memo: return memo[i]
        k, s, t, n, e, m = self.ty[i]
        held = self.has(i, keep) if keep else False
        go = lambda x: self.mutate(x, keep, drop, memo, k in ("owned", "switch", "raw"))  # those hold structs
        if not top and not held and self.change and not (drop and self.has(i, drop)) and rng.random() < 0.05:
            r = self.any(1)
            if k not in INTS + FLTS and not self.has(r, PTR):
                memo[i] = r
                return r
        if k in INTS + FLTS:
            if self.change and rng.random() < 0.35:
                c = INTS if k in INTS else FLTS
                memo[i] = self.add(rng.choice([x for x in (c if self.pure else INTS + FLTS) if x in self.kinds]))
            else: memo[i] = i
            return memo[i]
        if k in ("string", "typed", "any"):
            memo[i] = i
            return i
        if k == "raw":
            memo[i] = j = self.add(k)
            self.ty[j][2] = go(t)
            return j
        if k in ("array", "owned", "fixed", "eia"):
            if rng.random() < 0.2 and k != "owned" and not drop and not keep:
                memo[i] = i  # this type as it is
                return i
            memo[i] = j = self.add(k, s, n=n)
            self.ty[j][2] = go(t)
            if k == "fixed" and not held and self.change and rng.random() < 0.1: self.ty[j][3] = n + 1
            if k == "eia": self.ty[j][4] = self.edit(e, True, held)
            return j
        if k == "enum":
            memo[i] = self.edit(i, False, False)
            return memo[i]
        memo[i] = j = self.add(k, s)
        out = []
        for name, x in m:
            fixed = (held and self.has(x, keep)) or (k == "switch" and (held or not self.change))
            if drop and self.has(x, drop) and not (keep and self.has(x, keep)) and k == "struct": continue
            r = rng.random()
            if not fixed and r < 0.12: continue
            if not fixed and r < 0.2: name = self.name("n")
            out.append((name, go(x)))
        if rng.random() < 0.3: out.append((self.name("m"), self.struct(1) if k == "switch" else self.any(1)))
        if k == "struct" and rng.random() < 0.1 and self.change: out.append(("a" if "a" not in [y[0] for y in out] + [y[0] for y in m] else self.name("m"), self.any(1)))
        if rng.random() < 0.5: rng.shuffle(out)
        if k == "switch" and not out: out.append(("t", self.struct(1)))
        self.ty[j][5] = out
        return j
    def edit(self, e, seq, held):
        rng = self.rng
        k, s, t, n, _, m = self.ty[e]
        m = [x for x in m]
        if self.change and not held:
            m = [x for x in m if rng.random() < 0.85]
            m = [(self.name("N"), v) if rng.random() < 0.08 else (a, v) for a, v in m]
        if rng.random() < 0.3 or not m: m.append((self.name("M"), 0))
        if rng.random() < 0.5: rng.shuffle(m)
        if seq: m = [(a, j) for j, (a, v) in enumerate(m)]
        else:
            n = rng.choice([n, 1, 2, 4])
            if rng.random() < 0.6 or n == 1: m = [(a, j * rng.choice([1, 3])) for j, (a, v) in enumerate(m)]
            if n == 2: m = [(a, v % 65536) for a, v in m]
        return self.add("enum", s, n=n, m=m)
    # ---- values ----
    def num(self, k):
        rng = self.rng
        if k == "bool": return rng.randrange(2)
        if k in FLTS:
            return rng.choice([0, 1, 7, 8, rng.randrange(801)]) if not self.pure else rng.choice([0, 1, -1, 8, -8, 16777215, -16777215, rng.randrange(-16777215, 16777216)])
        b = int(k[1:])
        if not self.pure:
            return rng.choice([0, 1, rng.randrange(101), rng.randrange(min(2 ** (b - 1), 2 ** 23))])
        lo, hi = (0, 2 ** b - 1) if k[0] == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)
        edge = [x for x in (0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, -2 ** 31, -2 ** 31 - 1, 2 ** 48) if lo <= x <= hi]
        v = rng.choice([lo, hi, rng.choice(edge), rng.choice(edge), rng.randint(lo, hi)])
        return v - 2 ** 64 if v >= 2 ** 63 else v  # the harness reads a signed number
    def text(self):
        return "".join(self.rng.choice("abcXYZ019 _-.") for _ in range(self.rng.choice([0, 0, 1, 3, 9, 40])))
    def val(self, i, d=4):
        rng = self.rng
        k, s, t, n, e, m = self.ty[i]
        if k in INTS + FLTS: return [str(self.num(k))]
        if k == "string": return [hx(self.text())]
        if k == "enum": return [str(rng.choice(m)[1])]
        if k == "raw": return [str(rng.randrange(1, 30))]
        if k == "owned": return self.val(t, d - 1)
        if k == "array":
            c = rng.choice([0, 1, 2, 3]) if d > 0 else 0
            return [str(c)] + [x for _ in range(c) for x in self.val(t, d - 1)]
        if k in ("fixed", "eia"):
            c = n if k == "fixed" else len(self.ty[e][5])
            return [x for _ in range(c) for x in self.val(t, d - 1)]
        if k == "struct": return [x for _, y in m for x in self.val(y, d - 1)]
        if k == "switch":
            j = rng.randrange(len(m))
            return [str(j)] + self.val(m[j][1], d - 1)
        if k == "typed":
            j, c = rng.choice(self.items), rng.choice([0, 1, 2, 5])
            return [str(j), str(c)] + [x for _ in range(c) for x in self.val(j, d - 1)]
        j = rng.choice(self.bring)
        return [str(j)] + self.val(j, d - 1)
    def note(self, i, d=4):  # pylon text for a part of an object of the type
        rng = self.rng
        k, s, t, n, e, m = self.ty[i]
        if k == "bool": return rng.choice(["true", "false", "maybe"])
        if k == "u8": return str(rng.randrange(256))
        if k in ("u16", "u32"): return str(rng.randrange(900))
        if k in INTS + FLTS: return str(rng.randrange(-120, 128))
        if k == "string": return '"' + self.text() + '"'
        if k == "enum": return rng.choice(m)[0]
        if k == "owned": return self.note(t, d - 1)
        if k == "fixed": return "[" + ",".join(self.note(t, d - 1) for _ in range(n)) + "]"
        if k == "array": return "[" + ",".join(self.note(t, d - 1) for _ in range(rng.choice([0, 1, 2, 4]) if d > 0 else 0)) + "]"
        if k == "switch":
            a, x = rng.choice(m)
            return "{" + a + ":" + self.note(x, d - 1) + "}"
        parts = [(a, x) for a, x in m] if k == "struct" else [(a, t) for a, v in self.ty[e][5]]
        parts = [p for p in parts if rng.random() < 0.7]
        rng.shuffle(parts)
        if rng.random() < 0.2: parts.append((self.name("u"), self.add("string")))
        return "{" + ",".join(a + ":" + self.note(x, d - 1) for a, x in parts) + "}"

ALL = set(INTS + FLTS + ["string", "enum", "struct", "fixed", "array", "eia", "switch", "owned", "self", "typed", "any"])

def migrate(rng, kinds=ALL, pure=None):
    pure = rng.random() < 0.6 if pure is None else pure
    T = Types(rng, pure, kinds)
    S = T.struct(rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 4, 6]))
    T.items = [T.item(2) for _ in range(3)]
    T.bring = [T.add("struct", "B", m=[("x", T.items[0]), ("y", T.items[1])]), T.add("string"), T.add("u16")]
    L = [T.mutate(S) for _ in range(3)]
    L2 = T.mutate(L[0])
    s = ["reset"] + T.script()
    for _ in range(rng.choice([1, 2, 3])):
        s += ["make %d %s" % (S, " ".join(T.val(S))), "save", "load %d" % S]
        if pure and rng.random() < 0.7: s += ["save", "load %d" % S]
        s += ["load %d" % x for x in L]
        if rng.random() < 0.3: s += ["fresh %d" % rng.choice(L)]
    return s

def again(rng):  # step by step through several versions; nothing is ever left undefined
    T = Types(rng, True, ALL - {"typed", "any"}, change=False)
    S = T.struct(3, rng.choice([2, 3, 5]))
    vs = [S]
    for _ in range(4): vs.append(T.mutate(rng.choice(vs)))
    s = ["reset"] + T.script() + ["make %d %s" % (S, " ".join(T.val(S)))]
    for _ in range(8): s += ["save", "load %d" % rng.choice(vs)]
    return s

def pointers(rng):
    T = Types(rng, True, set(INTS + ["string", "enum", "struct", "fixed", "array"]), change=False)
    N = T.add("struct", "N")
    R, O = T.add("raw", t=N), T.add("owned", t=N)
    mem = [("id", T.add("u16"))]
    if rng.random() < 0.6: mem.append(("next", R))
    if rng.random() < 0.4: mem.append(("kids", T.add("array", t=O)))
    if rng.random() < 0.4: mem.append(("refs", T.add("array", t=R)))
    rng.shuffle(mem)
    T.ty[N][5] = mem
    # M can start with an object of its own, which is then saved at the same place as M itself
    M = T.add("struct", "M")
    RM, OM = T.add("raw", t=M), T.add("owned", t=M)
    mem = [("id", T.add("u16"))]
    if rng.random() < 0.8: mem.insert(0, ("first", O))
    if rng.random() < 0.4: mem.append(("me", RM))
    if rng.random() < 0.4: mem.append(("n", R))
    T.ty[M][5] = mem
    S = T.add("struct", "S")
    mem = [("o%d" % j, O) for j in range(rng.choice([0, 1, 2, 3]))] + [("r%d" % j, R) for j in range(rng.choice([0, 1, 2]))]
    if rng.random() < 0.7: mem.append(("all", T.add("array", t=O)))
    if rng.random() < 0.4: mem.append(("some", T.add("fixed", t=R, n=2)))
    if rng.random() < 0.3: mem.append(("w", T.add("switch", "W", m=[("p", T.add("struct", "P", m=[("o", O)])), ("q", T.add("struct", "Q", m=[("r", R)]))])))
    if rng.random() < 0.6: mem += [("ow%d" % j, OM) for j in range(rng.choice([1, 2, 3]))] + [("s%d" % j, RM) for j in range(rng.choice([0, 1, 2]))]
    mem += [("d%d" % j, T.any(1)) for j in range(2)]
    rng.shuffle(mem)
    T.ty[S][5] = mem
    L = [T.mutate(S, keep=PTR), T.mutate(S, keep=PTR)]
    D = T.mutate(S, drop=("raw",))
    D2 = T.mutate(S, keep=(RM, OM), drop=(R,))  # only pointers to M stay; any other owned object can go
    s = ["reset"] + T.script()
    for _ in range(3):
        s += ["make %d %s" % (S, " ".join(T.val(S, 4))), "save", "load %d" % S, "save"]
        s += ["load %d" % L[0], "load %d" % D, "load %d" % D2, "load %d" % L[1], "save", "load %d" % S]
    return s

def pylon(rng):
    T = Types(rng, True, {"bool", "string", "enum", "struct", "array", "switch", "owned", "self"}, change=False)
    S = T.struct(3, rng.choice([1, 2, 4]))
    L = [T.mutate(S), T.mutate(S)]
    s = ["reset"]
    m = ["make %d %s" % (S, " ".join(T.val(S))), "export", "import %d" % S, "export", "import %d" % L[0], "import %d" % L[1]]
    m += ["make %d %s" % (S, " ".join(T.val(S)))] + ["patch " + hx(T.note(S)) for _ in range(3)] + ["export", "save", "load %d" % L[0]]
    # numbers can only be read
    T.kinds = {"bool", "u8", "u16", "u32", "s32", "float", "string", "enum", "struct", "array", "switch", "fixed"}
    P = T.struct(3, rng.choice([2, 3, 5]))
    E = T.add("struct", "V", m=[("i", T.add("eia", t=T.add("string"), e=T.enum(True))), ("j", T.add("eia", t=T.struct(1), e=T.enum(True))), ("p", P)])
    T.pure = False
    m += ["make %d %s" % (E, " ".join(T.val(E)))] + ["patch " + hx(T.note(E)) for _ in range(3)] + ["save", "load %d" % E]
    return s + T.script() + m

def run(chk):
    exe = chk.build("reflect", modules=("reflect", "pylon", "pylon-reflect"))
    chk.model("MCReflect", coverage=False)
    k = 8 if chk.thorough else 1
    chk.known_findings("reflect", exe, "TraceReflectSpec")
    chk.conform("versions", exe, [migrate(chk.rng) for _ in range(260 * k)], "TraceReflectSpec", jobs=8)
    chk.conform("numbers", exe, [migrate(chk.rng, set(INTS + FLTS + ["struct", "array", "fixed"]), p) for p in (True, False) for _ in range(40 * k)], "TraceReflectSpec", jobs=8)
    chk.conform("chains", exe, [again(chk.rng) for _ in range(120 * k)], "TraceReflectSpec", jobs=8)
    chk.conform("pointers", exe, [pointers(chk.rng) for _ in range(160 * k)], "TraceReflectSpec", jobs=8)
    chk.conform("pylon", exe, [pylon(chk.rng) for _ in range(120 * k)], "TraceReflectSpec", jobs=8)
    chk.require_kinds("make", "save", "load", "rest", "fresh", "export", "import", "patch")

if __name__ == "__main__":
    sys.exit(main("C17", "reflect", run))
