import sys, os, json, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def hx(b): return "x" + b.encode("latin-1").hex()

# ---- inline elements; how they are written (the specification has the same in Written) ----
def T(s): return {"k": "t", "s": s}
BR = {"k": "br"}
def glue(a, b): return a[:-1] + [a[-1] + b[0]] + b[1:]
def dest(d): return "".join("\\" + x if x in ("(", ")", "\\") else x for x in d)
def inline(x):
    k = x["k"]
    if k == "t": return [x["s"]]
    if k == "br": return ["", ""]
    if k in ("em", "st"):
        m = x["m"] * (1 if k == "em" else 2)
        return glue(glue([m], inlines(x["c"])), [m])
    if k == "cs":
        m, p = "`" * x["n"], " " if x["pad"] else ""
        return glue(glue([m + p], x["ls"]), [p + m])
    return glue(glue(["["], inlines(x["c"])), ["](" + dest(x["d"]) + ")"])
def inlines(s):
    r = [""]
    for x in s: r = glue(r, inline(x))
    return r
def marker(l, i): return l["u"] if l["n"] < 0 else str(l["n"] + i) + l["u"]
def block(x):
    k = x["k"]
    if k == "p": return [" " * (x["ind"] if i == 0 else x["cont"]) + t + " " * x["tr"] for i, t in enumerate(inlines(x["c"]))]
    if k == "h": return [" " * x["ind"] + "#" * x["n"] + (" " if x["c"] else "") + inlines(x["c"])[0] + " " * x["tr"]]
    if k == "pre": return [("\t" if x["tab"] else "    ") + t if t else "" for t in x["ls"]]
    if k == "q": return [" " * x["ind"] + (x["st"] + t if t else ">") for t in blocks(x["b"])]
    r = []
    for i, it in enumerate(x["it"]):
        m = " " * it["in"] + marker(x, i) + " " * it["sp"]
        ls = blocks(it["b"]) if it["b"] else [""]
        r += [""] * it["bl"] + [m + t if j == 0 else " " * len(m) + t if t else "" for j, t in enumerate(ls)]
    return r
def blocks(s):
    r = []
    for x in s: r += [""] * x["bl"] + block(x)
    return r
def tabbed(t): return "\t" + tabbed(t[4:]) if len(t) > 4 and t[:4] == "    " else t
def text(d):
    t = d["nl"].join(tabbed(t) if d["tabs"] else t for t in blocks(d["b"]))
    return t + d["nl"] if d["fin"] else t

class Gen:
    def __init__(self, rng): self.rng = rng

    # words that are nothing but text, wherever they stand in a line
    def word(self, first):
        rng = self.rng
        w = rng.choice(["a", "b", "ab", "xyz", "c", "d", "x", "f."])
        r = rng.random()
        if r < 0.12: w = rng.choice(["&", "<b>", "\"q\"", "a&b", "&amp;", "'", "\xc3\xa9", "a!", "(a)", "x,", "a:b", "~", "|", "{}", "=", "a=b", "a-b", "a+b", "a#"])
        elif r < 0.18 and first: w = rng.choice(["#a", "-a", "+b", "1a", "1.5", "1", "12", "1234567890. x", "####### x", ".", "1:", "--", "a#", "2.x"])
        elif r < 0.18: w = rng.choice(["-", "+", "#", "1.", "2)", ">", "-a", "# x", "- a", "12. b", "a_b", "a_b_c", "a__b", "*"])
        return w
    def spanline(self, first):
        rng = self.rng
        s = "".join(rng.choice(["a", "b", "x", "*", "_", " ", "<", "&", "[", "](", "\\", "#", ".", "-", "\""]) for _ in range(rng.choice([1, 2, 3, 6]))).strip()
        return s if s and first else "a" + s
    def code(self, multi):
        rng = self.rng
        n = rng.choice([1, 1, 2])
        ls = [self.spanline(i == 0) for i in range(rng.choice([1, 1, 2]) if multi else 1)]
        pad = rng.random() < 0.2
        if rng.random() < 0.3:                  # other runs of backticks inside
            other = "`" * (3 - n)
            i = rng.randrange(len(ls))
            ls[i] = ls[i] + " " + other + " x" if rng.random() < 0.5 else ls[i] + other
        if rng.random() < 0.15:
            ls[0], pad = "`" * (3 - n) + ls[0], True
        if ls[-1].endswith("`"): pad = True
        return {"k": "cs", "n": n, "pad": pad, "ls": ls}
    def dest(self):
        rng = self.rng
        return [rng.choice(["a", "b", "/", ".", "#", "%", "&", "\"", "<", "x", "_", "*", "(", ")", "\\", "(b)", "(a(b)c)", "\\a", "[", "]", "`", "\xc3", "?", "!"]) for _ in range(rng.choice([0, 1, 2, 4, 8]))]
    def atom(self, d, marks, link, multi, first):
        """one piece of text between spaces"""
        rng = self.rng
        r = rng.random()
        if d > 0 and r < 0.3 and marks:
            m = rng.choice(marks)
            c = self.inls(d - 1, [x for x in marks if x != m], link, multi, rng.choice([1, 1, 2, 3]), True)
            x = [{"k": rng.choice(["em", "st"]), "m": m, "c": c}]
        elif r < 0.42: x = [self.code(multi)]
        elif d > 0 and r < 0.52 and link:
            x = [{"k": "a", "c": self.inls(d - 1, marks, False, multi, rng.choice([0, 1, 1, 2]), True), "d": self.dest()}]
        else: return [T(self.word(first))]
        r = rng.random()
        if r < 0.1: x = x + [T(rng.choice([",", ".", "!", ";"]))]
        elif r < 0.17: x = [T("(")] + x + [T(")")]
        elif r < 0.25 and (x[0]["k"] in ("cs", "a") or (x[0]["m"] == "*" and x[0]["c"][0]["k"] == "t" and x[0]["c"][-1]["k"] == "t")): x = [T("a")] + x + [T("b")]
        return x
    def inls(self, d, marks, link, multi, n, inner=False):
        rng = self.rng
        r = []
        first = True
        for i in range(n):
            if i: 
                first = multi and rng.random() < 0.2
                r.append(BR if first else T(" " if rng.random() < 0.9 else "   "))
            a = self.atom(d, marks, link, multi, first or inner)
            if inner and (i == 0 or i == n - 1):
                # next to a mark of emphasis or inside a link: letters or another element
                a = [T(rng.choice(["a", "b", "xy"]))] if a[0]["k"] == "t" or a[-1]["k"] == "t" else a[-1:]
            r += a
        return r
    def para(self, n=None, multi=True):
        rng = self.rng
        c = self.inls(2, ["*", "_"], True, multi, n or rng.choice([1, 2, 3, 5, 8]))
        r = rng.random()
        sp = lambda: T(" ")
        if r < 0.04: c += [sp(), T(rng.choice(["x*", "y**", "x_", "z]", "[z]", "z](", "](a)", "x* y*"]))]
        elif r < 0.08: c += [sp(), T(rng.choice(["*x", "**y", "_x", "[z", "[z](", "[z](a", "[z](a b", "[z](a(b)", "```", "```z", "[[z"]))]
        elif r < 0.1 and multi: c += [BR, T(rng.choice(["2. x", "0) x", "10. y"]))]
        return c
    def short(self): return [T(self.rng.choice(["a", "b", "x y", "c"]))]

    # ---- blocks ----
    def prepare(self, prev, lists, blank, top, nosp, sp1, first, depth, code):
        """kinds of blocks that may follow, with the number of blank lines"""
        rng = self.rng
        out = []
        pk = prev["k"] if prev else None
        for k in ("p", "p", "p", "h", "pre", "q", "l", "l"):
            if k in ("q", "l") and depth <= 0: continue
            if k == "pre" and (nosp or not code or pk in ("pre", "l")): continue
            need = (pk, k) in (("p", "p"), ("p", "pre"), ("q", "p"), ("l", "p"), ("q", "pre"), ("q", "q"))
            if need and not blank: continue
            out.append((k, need))
        return out
    def seq(self, depth, n, loose, blank, top=False, nosp=False, code=True, item=False, room=3):
        """n blocks; blank: blank lines are allowed between them"""
        rng = self.rng
        r = []
        for i in range(n):
            prev = r[-1] if r else None
            opts = self.prepare(prev, None, blank, top, nosp, True, i == 0, depth, code)
            if item and i == 0 and not loose: opts = [o for o in opts if o[0] != "pre"]
            if not opts: break
            k, need = rng.choice(opts)
            bl = rng.choice([1, 1, 2]) if need else rng.choice([0, 1, 1, 2]) if blank and prev else 0
            if item and i == 1 and loose is True and bl == 0 and blank: bl = 1
            low = 0 if nosp or (item and i == 0) else 1 if prev and prev["k"] == "l" else room
            ind = rng.choice([0, 0, 0, rng.randrange(low + 1)])
            if k == "p":
                x = {"k": "p", "bl": bl, "ind": ind, "cont": 0 if nosp else rng.choice([0, 0, 0, 1, 3, 4, 6]), "tr": rng.choice([0, 0, 0, 1]), "c": self.para()}
            elif k == "h":
                x = {"k": "h", "bl": bl, "ind": ind, "n": rng.randrange(1, 7), "tr": rng.choice([0, 0, 1]), "c": self.para(rng.choice([1, 2, 3]), False) if rng.random() < 0.85 else []}
                if x["c"] and x["c"][-1]["k"] == "t" and x["c"][-1]["s"][-1:] == "#": x["c"].append(T(" a"))
            elif k == "pre":
                ls = ["".join(rng.choice(["a", "b", "x", " ", "*", "<", "&", ">", "#", "- ", "\t", "`", "1. "]) for _ in range(rng.choice([1, 2, 4, 8]))) for _ in range(rng.choice([1, 1, 2, 3]))]
                ls = [t if t.strip() else "a" + t for t in ls]
                if len(ls) > 1 and rng.random() < 0.4: ls[1:1] = [""] * rng.choice([1, 1, 2])
                x = {"k": "pre", "bl": bl, "tab": top and rng.random() < 0.2, "ls": ls}
                if x["tab"]: x["ls"] = [t.replace("\t", "") or "a" for t in ls if t] 
            elif k == "q":
                st = rng.choice(["> ", "> ", ">"]) if not nosp else ">" if rng.random() < 0.3 else "> "
                b = self.seq(depth - 1, rng.choice([1, 1, 2, 3]), loose, blank, nosp=st == ">", code=st != ">")
                if any(t[:1] == " " for t in blocks(b)): st = "> "
                x = {"k": "q", "bl": bl, "ind": ind, "st": st, "b": b}
            else:
                x = self.list(depth, prev, bl, blank, nosp)
                if item and i == 0: x["it"][0]["in"] = 0
            r.append(x)
        return r
    def list(self, depth, prev, bl, blank, nosp):
        rng = self.rng
        kinds = [(-1, "-"), (-1, "*"), (-1, "+"), (1, "."), (1, ")"), (0, "."), (2, "."), (9, ")"), (99, "."), (123456789, "."), (rng.randrange(1000), ")")]
        if prev and prev["k"] == "l":
            kinds = [x for x in kinds if (x[0] < 0, x[1]) != (prev["n"] < 0, prev["u"])]
        inter = prev and prev["k"] == "p" and bl == 0
        if inter: kinds = [x for x in kinds if x[0] in (-1, 1)]
        n, u = rng.choice(kinds)
        loose = blank and rng.random() < 0.5
        count = rng.choice([1, 2, 2, 3])
        if loose and count == 1 and rng.random() < 0.7: count = 2
        items = []
        for i in range(count):
            sp = rng.choice([1, 1, 1, 1, 2, 3])
            empty = rng.random() < 0.07 and not (inter and i == 0)
            nb = 0 if empty else rng.choice([1, 1, 1, 2, 2, 3])
            if loose and count == 1: nb = max(2, nb)
            if empty: nb = 0
            items.append({"bl": 0 if i == 0 else rng.choice([1, 1, 2]) if loose else 0, "in": 0 if nosp else rng.choice([0, 0, 0, 1]), "sp": sp,
                          "b": self.seq(depth - 1, nb, loose, loose, code=sp == 1 and loose, item=True, room=4 - sp)})
        lo = any(i["bl"] for i in items) or any(b["bl"] for i in items for b in i["b"][1:])
        x = {"k": "l", "bl": bl, "n": n, "u": u, "lo": lo, "it": items}
        return x
    def doc(self, depth=3):
        rng = self.rng
        b = self.seq(depth, rng.choice([1, 1, 2, 3, 5]), None, True, top=True)
        if b and rng.random() < 0.15: b[0]["bl"] = rng.choice([1, 2])
        has = '"pre"' in json.dumps(b)
        return {"b": b, "nl": "\r\n" if not has and rng.random() < 0.1 else "\n", "fin": has or rng.random() < 0.7, "tabs": rng.random() < 0.2 and not deep(b)}

def deep(b):
    """code with more than two spaces of its own in front"""
    return any((x["k"] == "pre" and any(len(t) - len(t.lstrip(" ")) > 2 for t in x["ls"])) or
               (x["k"] == "q" and deep(x["b"])) or (x["k"] == "l" and any(deep(it["b"]) for it in x["it"])) for x in b)

def ok(d):
    """a list that has blank lines inside is loose all the way up; only then are its parts judged"""
    def blank(b, first=True):
        return any((x["bl"] and (i or not first)) or (x["k"] == "q" and blank(x["b"])) or
                   (x["k"] == "l" and any((it["bl"] and j) or blank(it["b"]) for j, it in enumerate(x["it"]))) for i, x in enumerate(b))
    def check(b):
        for x in b:
            if x["k"] == "q" and not check(x["b"]): return False
            if x["k"] == "l":
                if not x["lo"] and (any(blank(it["b"]) for it in x["it"])): return False
                if not all(check(it["b"]) for it in x["it"]): return False
        return True
    return check(d["b"])

def made(rng, n, depth):
    g = Gen(rng)
    out = ["reset"]
    while len(out) <= n:
        d = g.doc(depth)
        if not ok(d) or len(text(d)) > 4000: continue
        out.append("doc %s %s" % (hx(json.dumps(d)), hx(text(d))))
    return out

PIECES = ["- ", "* ", "+ ", "> ", ">", "# ", "## ", "1. ", "2. ", "1) ", "    ", "  ", " ", "\t", "\n", "\n", "\n", "\n\n", "a", "b", "c d", "x", "*", "**", "_", "`", "``", "[", "]", "](", ")", "(", "[a](b)", "\\", "<", "&", "\r\n", "\r", "-", "#", ".", "12", "\xc3\xa9", "\x80", "\x01", "0", "***", "\x0b", "\x00", "!", "\""]
def wild(rng):
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([3, 6, 12, 25, 60])))
def damaged(rng, g):
    t = text(g.doc())[:600]
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice([rng.choice(PIECES), ""]) + t[i + rng.choice([0, 0, 1, 3]):]
    return t

def run(chk):
    exe = chk.build("markdown", ["web-markdown"])
    chk.model("MCMarkdown", coverage=False)
    rng = chk.rng
    k = 10 if chk.thorough else 1
    chk.known_findings("markdown", exe, "TraceMarkdownSpec")
    chk.conform("made", exe, [made(rng, 12, rng.choice([1, 2, 3])) for _ in range(240 * k)], "TraceMarkdownSpec", jobs=8)
    g = Gen(rng)
    chk.conform("any", exe, [["reset"] + ["any " + hx(wild(rng) if rng.random() < 0.6 else damaged(rng, g)) for _ in range(25)] for _ in range(160 * k)],
                "TraceMarkdownSpec", jobs=8)
    # every short text over the marks of the syntax
    def all_texts(alphabet, n): return ["".join(t) for m in range(n + 1) for t in itertools.product(alphabet, repeat=m)]
    short = all_texts(["a", " ", "\n", "-", ">", "#"], 5 if chk.thorough else 4) + all_texts(["a", "*", "_", " ", "\n"], 6 if chk.thorough else 5) \
        + all_texts(["[", "]", "(", ")", "a", "`", "\\"], 5 if chk.thorough else 4) + all_texts(["- ", "> ", "1. ", "\n", "    ", "a", " "], 5 if chk.thorough else 4)
    short = sorted(set(short))
    chk.conform("short", exe, [["reset"] + ["any " + hx(t) for t in short[i:i + 200]] for i in range(0, len(short), 200)], "TraceMarkdownSpec", jobs=8)
    chk.require_kinds("doc", "any")

if __name__ == "__main__":
    sys.exit(main("C18", "Markdown", run))
