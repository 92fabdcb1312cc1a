import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def hx(b): return "x" + b.encode("latin-1").hex()
WORDS = ["a", "b", "key", "x1", "-", ".", "$v", "_", "\xc3\xa9", "\xff", "0", "-1.5e3", "a.b-c", "true", "\x80\xff", "Az9_"]
BITS = ["a", "b", " ", "\n", "\r", "\\n", "\\\\", "\\\"", "\\'", "\\t", "\\r", "'", "\"", "\\x0a", "\\xfF", "\\x00", "\xff", "\xe2\x82\xac", "{", ",", "#", "\t", "\x01", "''", "\"\"", "z" * 30]
def quoted(rng, bad=0.0):
    q = rng.choice("\"'")
    multi = rng.random() < 0.3
    s = ""
    for _ in range(rng.choice([0, 0, 1, 2, 4, 8])):
        b = rng.choice(BITS)
        if not multi and (b[0] == q or b in "\r\n"): continue
        if multi and b == q * 2 and (s.endswith(q)): continue
        s += b
    if multi:
        if s.endswith(q): s += "."
        if s.startswith(q): s = "." + s
    if rng.random() < bad: s += rng.choice(["\\q", "\n", "\\x1", "\\xg0", "\\\n", q, "\\", "\\x"])
    return q * (3 if multi else 1) + s + q * (3 if multi else 1)
def word(rng): return rng.choice(WORDS) if rng.random() < 0.6 else quoted(rng)
def blank(rng): return rng.choice(["", "", "", " ", "  ", "\t", "\r", "\r\n" if rng.random() < 0.3 else " "])
def gap(rng): return blank(rng) + rng.choice(["", "", "\n", "\n\n"]) + blank(rng)
def value(rng, d, w=4):
    r = rng.random()
    if d == 0 or r < 0.35: return word(rng)
    n = rng.choice([0, 1, 2, 3, w])
    if r < 0.65:
        return "[" + gap(rng) + "".join(value(rng, d - 1, w) + (rng.choice([",", ";", "\n", " ", ",\n", ",,", " ,"]) if rng.random() < 0.9 else " ") + gap(rng) for _ in range(n)) + "]"
    s = "{" + gap(rng)
    used = set()
    for j in range(n):
        k = word(rng)
        if k in used: k = "k%d" % j
        used.add(k)
        s += k + blank(rng) + rng.choice(":=") + gap(rng) + value(rng, d - 1, w) + blank(rng) + rng.choice([",", ";", "\n", ",\n", "\n,;\n"] if j + 1 < n else [",", "", "\n", ";", ""]) + gap(rng)
    return s + "}"
def broken(rng, s):
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(s) + 1)
        r = rng.random()
        if r < 0.4: s = s[:i] + rng.choice(list("{}[]:=,;\n\"'\\@#\0\xffa ") + ["\\x4", "'''", "{a:1,a:2}", "\"\"\""]) + s[i:]
        elif r < 0.7: s = s[:i] + s[i + 1:]
        elif r < 0.85: s = s[:i]
        else:
            j = rng.randrange(len(s) + 1)
            s = s[:i] + s[j:j + rng.randrange(6)] + s[i:]
    return s
def doc(rng):
    s = gap(rng) + value(rng, rng.choice([0, 1, 2, 3])) + gap(rng)
    return broken(rng, s) if rng.random() < 0.4 else s

def parsing(rng):
    s = ["reset"]
    for _ in range(rng.randrange(6, 14)):
        s.append("%s %d %s" % (rng.choice(["parse", "parse", "parseagain"]), rng.randrange(3), hx(doc(rng)[:260])))
        r = rng.random()
        if r < 0.4: s.append("write %d" % rng.randrange(3))
        elif r < 0.5: s += ["copy %d 7" % rng.randrange(3), "drop %d" % rng.randrange(3), "write 7", "copy 7 8"]
    return s

def anytext(rng):
    return "".join(chr(rng.choice([rng.randrange(256), rng.randrange(32), rng.choice([34, 39, 92, 10, 13, 9, 97, 0xc3, 0xa9, 0xff])])) for _ in range(rng.choice([0, 1, 2, 5, 12])))
def path(rng): return " ".join(str(rng.randrange(12)) for _ in range(rng.choice([0, 0, 1, 1, 2, 3])))
def tree(rng, wide=False):
    s = ["reset"]
    keys = ["a", "b", "", "key", "\xff", "c\n"] + ["k%d" % j for j in range(30 if wide else 4)]
    for j in range(6):
        s.append(rng.choice(["object %d %d" % (j, rng.randrange(100)), "object %d 0" % j, "array %d %d" % (j, rng.randrange(100))]))
    if wide:
        for j in range(40):
            s += ["text 9 %d %s" % (j, hx("v%d" % j)), "set 0 9 %s" % hx("key%d" % j)]
        for j in rng.sample(range(40), 8): s.append("remove 0 9 " + hx("key%d" % j))
        for j in rng.sample(range(40), 8): s.append("get 0 " + hx("key%d" % j))
    for _ in range(rng.randrange(20, 60)):
        r = rng.random()
        j, c = rng.randrange(10), rng.randrange(10)
        k = hx(rng.choice(keys))
        if r < 0.2: s.append("text %d %d %s" % (rng.randrange(4, 10), rng.randrange(1000), hx(anytext(rng))))
        elif r < 0.25: s.append("%s %d %d" % (rng.choice(["object", "array"]), j, rng.randrange(1000)))
        elif r < 0.5: s.append("set %d %d %s %s" % (j, c, k, path(rng)))
        elif r < 0.6: s.append("push %d %d %s" % (j, c, path(rng)))
        elif r < 0.65: s.append("settext %d %s %s" % (j, hx(anytext(rng)), path(rng)))
        elif r < 0.75: s.append("remove %d %d %s %s" % (j, c, k, path(rng)))
        elif r < 0.83: s.append("get %d %s %s" % (j, k, path(rng)))
        elif r < 0.88: s.append("at %d %d %s" % (j, rng.choice([0, 1, 2, 100]), path(rng)))
        elif r < 0.93: s.append("write %d" % j)
        elif r < 0.97: s.append("copy %d %d" % (j, c))
        else: s.append("drop %d" % j)
    return s

def exhaustive(alphabet, n, pre="", post=""):
    texts = [pre + "".join(t) + post for m in range(n + 1) for t in itertools.product(alphabet, repeat=m)]
    return [["reset"] + ["parse 0 " + hx(t) for t in texts[i:i + 250]] for i in range(0, len(texts), 250)]

def run(chk):
    exe = chk.build("pylon", modules=("pylon",))
    chk.model("MCPylon", coverage=False)  # the cost model of mutual recursion is too large
    chk.model("MCPylon", "MCPylonQuote", coverage=False)
    chk.model("MCPylon", "MCPylonTree", coverage=False)
    k = 8 if chk.thorough else 1
    chk.known_findings("pylon", exe, "TracePylonSpec")
    chk.conform("parsing", exe, [parsing(chk.rng) for _ in range(300 * k)], "TracePylonSpec", jobs=8)
    chk.conform("trees", exe, [tree(chk.rng) for _ in range(200 * k)] + [tree(chk.rng, True) for _ in range(10 * k)], "TracePylonSpec", jobs=8)
    chk.conform("short", exe, exhaustive("a'{}[]:,\n", 5 if chk.thorough else 4), "TracePylonSpec", jobs=8)
    chk.conform("strings", exe, exhaustive("a\"\\n\nx4", 6 if chk.thorough else 4, "\"") + exhaustive("\"a\n\r\\", 5 if chk.thorough else 4, "\"\"\"", ""), "TracePylonSpec", jobs=8)
    deep = ["reset"] + ["parse 0 " + hx("[" * d + "a" + "]" * d) for d in (1, 5, 30)] + ["parse 0 " + hx("{a:" * d + "a" + "}" * d) for d in (5, 30)] + \
           ["parse 0 " + hx("[" * 12), "parse 1 " + hx("z" * 255), "parse 1 " + hx("z" * 256), "parse 1 " + hx("'" + "z" * 253 + "\n"), "parse 1 " + hx("[" + " " * 254 + "@"), "parse 1 " + hx("[" + "\n" * 255), "parse 1 " + hx("[" + "\n" * 511)]
    chk.conform("shapes", exe, [deep], "TracePylonSpec")
    chk.require_kinds("parse", "write", "copy", "set", "remove", "get", "at", "push", "settext")

if __name__ == "__main__":
    sys.exit(main("C16", "pylon", run))
