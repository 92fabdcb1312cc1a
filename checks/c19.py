import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

def hx(b): return "x" + b.encode("latin-1").hex()
M32 = 0xffffffff
PREC = {"*": 3, "/": 3, "%": 3, "+": 4, "-": 4, "<": 6, "<=": 6, ">": 6, ">=": 6, "==": 7, "&&": 11, "||": 12}
def level(x): return PREC[x["op"]] if x["k"] == "b" else 2 if x["k"] == "u" else 1

# ---- expressions; parentheses are put where they are needed ----
def N(s): return {"k": "n", "s": s}
def I(n): return {"k": "i", "s": str(n)}
def G(x): return {"k": "g", "x": x}
def up(x, l): return x if level(x) <= l else G(x)
def Bin(op, l, r): return {"k": "b", "op": op, "l": up(l, PREC[op]), "r": up(r, PREC[op] - 1)}
def Un(op, x): return {"k": "u", "op": op, "x": up(x, 2)}
def Prop(o, s): return {"k": "p", "o": up(o, 1), "s": s}
def Call(f, a): return {"k": "c", "f": up(f, 1), "a": a}
def Str(p): return {"k": "s", "p": p}
def lit(s): return Str([{"l": [s]}] if s else [])
def As(l, r): return {"k": "as", "l": l, "r": r, "en": "nl"}
def Evl(x): return {"k": "ev", "x": x, "en": "nl"}
def Ret(x): return {"k": "ret", "x": x, "en": "nl"}
def If(c, t, e=None, br=True, eb=True): return {"k": "if", "c": c, "br": br, "t": t, "h": e is not None, "eb": eb, "e": e or []}
def Wh(c, t, br=True): return {"k": "wh", "c": c, "br": br, "t": t}
def Fn(n, p, b): return {"k": "fn", "n": n, "p": p, "b": b}
def Print(x): return Evl(Call(N("print"), [x]))

# ---- tokens: [text lines, nl, node]; the specification has the same in Toks ----
def toks(prog):
    out = []
    def tok(t, nl, node=None):
        out.append([[t], nl])
        if node is not None: node["at"] = len(out)
    def lv(p): return "may" if p else "no"
    def xt(x, p, first):
        k = x["k"]
        if k in "ni": tok(x["s"], first, x)
        elif k == "s":
            tok('"', first, x)
            for q in x["p"]:
                if "l" in q: out.append([q["l"], "in"])
                else:
                    tok("${", "in"); xt(q["x"], True, "may"); tok("}", "may")
            tok('"', "in")
        elif k == "p": xt(x["o"], p, first); tok(".", lv(p)); tok(x["s"], lv(p), x)
        elif k == "c":
            xt(x["f"], p, first); tok("(", lv(p), x)
            for i, a in enumerate(x["a"]):
                if i: tok(",", "may")
                xt(a, True, "may")
            tok(")", "may")
        elif k == "u": tok(x["op"], first, x); xt(x["x"], p, lv(p))
        elif k == "b": xt(x["l"], p, first); tok(x["op"], lv(p), x); xt(x["r"], p, lv(p))
        else: tok("(", first); xt(x["x"], True, "may"); tok(")", "may")
    def block(b, br):
        if br:
            tok("{", "may"); body(b, "may"); tok("}", "must" if b and b[-1].get("en") == "nl" else "may")
        else: st(b[0], "may")
    def st(s, first):
        k = s["k"]
        if k == "as": xt(s["l"], False, first); tok("=", "no"); xt(s["r"], False, "no")
        elif k == "ev": xt(s["x"], False, first)
        elif k == "ret": tok("return", first); xt(s["x"], False, "no")
        else:
            tok("if" if k == "if" else "while", first); xt(s["c"], False, "no"); block(s["t"], s["br"])
            if k == "if" and s["h"]: tok("else", "may"); block(s["e"], s["eb"])
        if s.get("en") == ";": tok(";", "no")
    def body(b, first):
        for s in b:
            st(s, first)
            first = "must" if ending(s) == "nl" else "may"
    for f in prog:
        if f["k"] == "fn":
            tok("fn", "may"); tok(f["n"], "may"); tok("(", "may")
            for i, p in enumerate(f["p"]):
                if i: tok(",", "may")
                tok(p, "may")
            tok(")", "may"); block(f["b"], True)
        else:
            f["at"] = len(out) + 1
            for t in f["t"]: tok(t, "may")
    return out
def ending(s):
    if "en" in s: return s["en"]
    if s["k"] == "if" and s["h"]: return "none" if s["eb"] else ending(s["e"][0])
    return "none" if s["br"] else ending(s["t"][0])

WORD = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
def separators(rng, ts, style):
    """style: 0 plain, 1 tight, 2 wild"""
    seps, last = [], ""
    for t, nl in ts:
        if nl == "in": s = [""]
        else:
            touch = last and t[0] and ((last[-1] in WORD and t[0][0] in WORD) or (last[-1] in "=<>|&/*!" and t[0][0] in "=|&/*"))
            r = rng.random()
            s = [" " if touch or (style == 0 and r < 0.7) or r < 0.1 else ""]
            if nl == "must": s = [s[0], " " * rng.choice([0, 4])]
            if style == 2:
                if rng.random() < 0.2:
                    s[-1] = s[-1] + rng.choice([" ", "/**/", " /* x */ ", "/* } */", "/***/", "   ", "/*/ */", "/* \" */"])
                if nl in ("may", "must") and rng.random() < 0.25:
                    s = s[:-1] + [s[-1] + rng.choice(["", "", " // x", "//", " // \"{ */", "/* a"])] + [rng.choice(["", "", " ", "  "])]
                    if s[-2].endswith("/* a"): s = s[:-1] + [s[-1] + "b */"]
                    if s[-2].endswith("/* a") and nl == "must": s = s + [""]
                    if rng.random() < 0.3: s = [""] + s
            if touch and s == [""]: s = [" "]
            if last[-1:] == "/" and s[0][:1] == "/": s = [" " + s[0]] + s[1:]
            if nl == "must" and all_in_comment(s): s = s + [""]
        seps.append(s)
        last = t[-1]
    seps.append(rng.choice([[""], ["", ""], [" "], ["", "", ""], [" // end"], ["/* end"]]))
    return seps
def all_in_comment(s):
    """no newline outside comments"""
    text, i = "\n".join(s), 0
    while i < len(text):
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0: return True
            i = j + 2
        elif text.startswith("//", i):
            j = text.find("\n", i)
            return j < 0
        elif text[i] == "\n": return False
        else: i += 1
    return True
def weave(ts, seps):
    return "".join("\n".join(s) + "\n".join(t[0]) for s, t in zip(seps, ts)) + "\n".join(seps[-1])

# ---- what running would cost (only to keep programs small; it judges nothing) ----
class Stop(Exception): pass
class Fail(Exception): pass
def cost(prog, name, value, limit=700):
    fns = {f["n"]: f for f in prog if f["k"] == "fn"}
    obj = {"name": name, "value": value}
    n = [0, 0, 0]
    def ev(x, env):
        n[0] += 1
        if n[0] > limit: raise Stop()
        k = x["k"]
        if k == "n":
            s = x["s"]
            if s in env: return env[s]
            if s in fns: return ("fn", s)
            if s == "print": return ("print",)
            if s in ("true", "false"): return s == "true"
            raise Fail()
        if k == "i": return int(x["s"]) & M32
        if k == "g": return ev(x["x"], env)
        if k == "s":
            r = ""
            for q in x["p"]:
                if "l" in q: r += "\n".join(q["l"])
                else:
                    v = ev(q["x"], env)
                    if v is None or isinstance(v, tuple): raise Fail()
                    r += str(v)
            return big(r)
        if k == "p":
            o = ev(x["o"], env)
            if o != ("obj",) or x["s"] not in obj: raise Fail()
            return obj[x["s"]]
        if k == "u":
            v = ev(x["x"], env)
            if type(v) is bool and x["op"] == "!": return not v
            if type(v) is not int: raise Fail()
            return {"-": -v & M32, "!": 0 if v else 1, "~": ~v & M32}[x["op"]]
        if k == "b":
            a, b, op = ev(x["l"], env), ev(x["r"], env), x["op"]
            if type(a) is str and op == "*" and type(b) is int:
                if b * max(1, len(a)) > 300: raise Stop()
                return big(a * b)
            if type(a) is not type(b): raise Fail()
            if type(a) is str and op == "+": return big(a + b)
            if type(a) is bool and op in ("==", "&&", "||"): return {"==": a == b, "&&": a and b, "||": a or b}[op]
            if type(a) is int and op not in ("&&", "||"):
                if op in "/%":
                    if b == 0: raise Fail()
                    return a // b if op == "/" else a % b
                if op in "+-*": return {"+": a + b, "-": a - b, "*": a * b}[op] & M32
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b}[op]
            raise Fail()
        f = ev(x["f"], env)
        a = [ev(y, env) for y in x["a"]]
        if f == ("print",):
            if len(a) != 1 or a[0] is None or isinstance(a[0], tuple): raise Fail()
            n[1] += len(str(a[0])) + 1
            if n[1] > 3000: raise Stop()
            return None
        if not isinstance(f, tuple) or f[0] != "fn" or len(fns[f[1]]["p"]) != len(a) or None in a: raise Fail()
        n[2] += 1
        if n[2] > 70: raise Stop()
        r = ex(fns[f[1]]["b"], dict(zip(fns[f[1]]["p"], a)))
        n[2] -= 1
        return r[0] if r else None
    def big(s):
        if len(s) > 400: raise Stop()
        return s
    def ex(b, env):
        for s in b:
            n[0] += 1
            if n[0] > limit: raise Stop()
            k = s["k"]
            if k == "as":
                if s["l"]["k"] == "n":
                    v = ev(s["r"], env)
                    if v is None or (s["l"]["s"] in env and type(env[s["l"]["s"]]) is not type(v)): raise Fail()
                    if v == ("obj",): raise Stop()      # whether an object is copied or shared is left open
                    env[s["l"]["s"]] = v
                elif s["l"]["k"] == "p":
                    a = ev(s["l"], env); v = ev(s["r"], env)
                    if type(a) is not type(v): raise Fail()
                    obj[s["l"]["s"]] = v
                else: raise Fail()
            elif k == "ev": ev(s["x"], env)
            elif k == "ret": return [ev(s["x"], env)]
            elif k == "if":
                c = ev(s["c"], env)
                if type(c) is not bool: raise Fail()
                r = ex(s["t"] if c else s["e"], env)
                if r: return r
            else:
                while True:
                    c = ev(s["c"], env)
                    if type(c) is not bool: raise Fail()
                    if not c: break
                    r = ex(s["t"], env)
                    if r: return r
    try:
        ex(fns["test"]["b"], {p: ("obj",) for p in fns["test"]["p"]})
    except Fail: return n[0]
    except (Stop, RecursionError): return None
    return n[0]

class Gen:
    def __init__(self, rng, wrong): self.rng, self.wrong = rng, wrong
    def number(self):
        return self.rng.choice([0, 1, 2, 3, 5, 7, 10, 16, 100, 255, 256, 65535, 65536, 65537, 1000000, 2147483647, 2147483648, 4294967295, self.rng.randrange(1 << 32)])
    def chars(self):
        rng = self.rng
        ls = ["".join(rng.choice(["a", "b", "xyz", " ", "\\\"", "\\\\", "\\$", "$", "{", "}", "\\${", "//", "/*", "(", "é".encode().decode("latin-1") if False else "q", "'", "\\n"]) for _ in range(rng.choice([1, 1, 2, 4, 12])))
              for _ in range(rng.choice([1, 1, 1, 1, 2]))]
        return [self.closed(l) for l in ls]
    def closed(self, l):
        """no embedded expression begins here"""
        r, i = "", 0
        while i < len(l):
            if l[i] == "\\": r += l[i:i + 2]; i += 2
            else:
                r += l[i] + (" " if l[i:i + 2] == "${" else ""); i += 1
        return r
    # an expression of the type (or of any other, now and then)
    def expr(self, ty, d):
        rng = self.rng
        if rng.random() < self.wrong: ty = rng.choice(["u", "b", "s"])
        if rng.random() < self.wrong / 3:
            return rng.choice([N("nope"), Prop(self.expr("u", 0), "name"), Prop(N("obj"), "nope"), Call(self.expr("u", 0), []), N("print"), Call(N("print"), [I(1)]),
                               Call(N("f1"), []), Un("-", lit("a")), Un("~", N("true")), N("obj"), Call(N("quiet"), []), Call(N("print"), [N("obj")]), Bin("&&", I(1), I(2)),
                               Call(N("print"), []), Bin("/", I(1), I(0)), Bin("%", I(7), Bin("-", I(1), I(1))), Bin("==", lit("a"), lit("a")), N("f1"),
                               Str([{"x": N("f1")}]), Str([{"x": Call(N("quiet"), [])}]), Bin("*", lit("a"), lit("b")), Bin("+", I(1), lit("b")), Bin("+", lit("1"), I(1))])
        vs = [v for v, t in self.vars.items() if t == ty]
        r = rng.random()
        if d <= 0 or r < 0.2:
            if vs and rng.random() < 0.6: return N(rng.choice(vs))
            if rng.random() < 0.15 and self.obj and ty in "us": return Prop(N("obj"), "name" if ty == "s" else "value")
            return I(self.number() if rng.random() < 0.5 else rng.randrange(10)) if ty == "u" else N(rng.choice(["true", "false"])) if ty == "b" \
                else Str([{"l": self.chars()}] if rng.random() < 0.9 else [])
        if r < 0.3: return G(self.expr(ty, d - 1))
        cands = [f for f in self.fns if f[2] == ty]
        if r < 0.5 and cands:
            f = rng.choice(cands)
            return Call(N(f[0]), [N("obj") if t == "o" else self.expr(t, d - 1) for t in f[1]]) if "o" not in f[1] or self.obj else self.expr(ty, d - 1)
        if ty == "u":
            if r < 0.65: return Un(rng.choice(["-", "!", "~"]), self.expr("u", d - 1))
            return Bin(rng.choice(["+", "-", "*", "+", "-", "*", "/", "%"]), self.expr("u", d - 1), self.expr("u", d - 1))
        if ty == "b":
            if r < 0.6: return Un("!", self.expr("b", d - 1))
            if r < 0.85: return Bin(rng.choice(["<", "<=", ">", ">=", "=="]), self.expr("u", d - 1), self.expr("u", d - 1))
            return Bin(rng.choice(["&&", "||", "=="]), self.expr("b", d - 1), self.expr("b", d - 1))
        if r < 0.7: return Bin("+", self.expr("s", d - 1), self.expr("s", d - 1))
        if r < 0.75: return Bin("*", self.expr("s", d - 1), I(rng.choice([0, 1, 2, 3, 5, 20])))
        p, was = [], False
        for _ in range(rng.choice([1, 2, 3])):
            if not was and rng.random() < 0.6: p.append({"l": self.chars()}); was = True
            else: p.append({"x": self.expr(rng.choice("ubs"), d - 1)}); was = False
        return Str(p)
    def stmts(self, n, d, ret):
        rng, out = self.rng, []
        for i in range(n):
            r = rng.random()
            if r < 0.35 or not self.vars:
                vs = [v for v in self.vars if v not in self.fixed]
                if vs and rng.random() < 0.5: v = rng.choice(vs); ty = self.vars[v]
                else:
                    v = rng.choice(["a", "b", "c", "x1", "_y", "long_name"])
                    ty = self.vars.get(v) or rng.choice("uubss")
                    if v in self.fixed: continue
                vs = [w for w, t in self.vars.items() if t == ty]
                e = N(rng.choice(vs)) if vs and rng.random() < 0.3 else self.expr(ty, rng.choice([0, 1, 2, 3]))
                out.append(As(N(v), e)); self.vars[v] = ty
            elif r < 0.6: out.append(Print(self.expr(rng.choice("usb"), rng.choice([0, 1, 2]))))
            elif r < 0.65 and self.obj: out.append(As(Prop(N("obj"), *["name"]), self.expr("s", 1)) if rng.random() < 0.5 else As(Prop(N("obj"), "value"), self.expr("u", 2)))
            elif r < 0.68: out.append(Evl(self.expr(rng.choice("usb"), 2)))
            elif r < 0.68 + self.wrong / 4:
                out.append(rng.choice([As(I(1), I(2)), If(I(1), [Print(I(1))]), Wh(lit("a"), [Print(I(1))]), As(Call(N("f1"), [I(1)]), I(1)), As(lit("a"), lit("b")),
                                       As(Prop(N("obj"), "name"), I(1)), As(Prop(N("obj"), "value"), lit("1")), As(N("a"), self.expr(rng.choice("ubs"), 0)), As(N("a"), Call(N("quiet"), []))]))
            elif r < 0.85 and d > 0:
                keep = dict(self.vars)
                c = self.expr("b", 2)
                def branch():
                    self.vars = dict(keep)
                    if ret and rng.random() < 0.25: return [Ret(self.expr(ret, 1))], rng.random() < 0.4
                    return self.stmts(rng.choice([0, 1, 2]), d - 1, ret), True
                t, br = branch()
                e, eb = branch() if rng.random() < 0.5 else (None, True)
                if rng.random() < 0.9: self.vars = keep
                s = If(c, t, e, br, eb)
                if not br and s["h"]: t[0]["en"] = "none"
                out.append(s)
            elif d > 0:
                i = rng.choice(["i", "j", "k"])
                if i in self.fixed: continue
                out.append(As(N(i), I(0)))
                keep = dict(self.vars); self.vars[i] = "u"; self.fixed.add(i)
                b = self.stmts(rng.choice([1, 2]), d - 1, ret)
                out.append(Wh(Bin("<", N(i), I(rng.choice([0, 1, 2, 4]))), b + [As(N(i), Bin("+", N(i), I(1)))]))
                self.fixed.discard(i); self.vars = keep; self.vars[i] = "u"
        return out
    def ends(self, b):
        for i, s in enumerate(b):
            last = i == len(b) - 1
            for sub, br in ((s.get("t"), s.get("br")), (s.get("e"), s.get("eb"))):
                if sub and br: self.ends(sub)
            q = s
            while "en" not in q and (q["k"] == "wh" or not q.get("h")) and not q["br"]: q = q["t"][0]
            if "en" not in q and q.get("h") and not q["eb"]: q = q["e"][0]
            if "en" in q:
                q["en"] = self.rng.choice(["nl", "nl", "nl", ";"])
                if last and q is s and self.rng.random() < 0.3: q["en"] = "none"
    def program(self, size):
        rng = self.rng
        self.fns, prog = [], []
        for k in range(rng.choice([1, 2, 3])):
            ret = rng.choice("uubs")
            ps = [(p, rng.choice("uubs")) for p in rng.sample(["a", "b", "n", "s"], rng.choice([0, 1, 1, 2, 3]))]
            if rng.random() < 0.2: ps.append(("obj", "o"))
            self.vars = {p: t for p, t in ps if t != "o"}
            self.fixed, self.obj = set(), any(t == "o" for p, t in ps)
            name = "f%d" % (k + 1)
            held = list(self.fns)
            self.obj, wasobj = False, self.obj
            b = self.stmts(rng.choice([0, 1, 3]), 1, ret)
            if wasobj: b.append(Print(Prop(N("obj"), "name")))
            if rng.random() < 0.4 and self.vars:      # returns a variable as it is
                v, t = rng.choice(sorted(self.vars.items()))
                ret = t; b = [s for s in b if s["k"] in ("as", "ev")] + [Ret(N(v))]
            else: b.append(Ret(self.expr(ret, 2)))
            prog.append(Fn(name, [p for p, _ in ps], b))
            self.fns = held + [(name, [t for _, t in ps], ret)]
        if rng.random() < 0.3:
            ret = rng.choice("us")
            z, step = (I(rng.randrange(3)), Bin("+", N("n"), Call(N("rec"), [Bin("-", N("n"), I(1)), N("s")]))) if ret == "u" else \
                (N("s"), Bin("+", Call(N("rec"), [Bin("-", N("n"), I(1)), Bin("+", N("s"), lit("."))]), N("s")))
            mid = [As(N(v), rng.choice([N("s"), N("n"), lit("abc"), Bin("*", N("n"), N("n"))])) for v in rng.sample(["a", "b", "c", "d"], rng.choice([0, 1, 3]))]
            prog.append(Fn("rec", ["n", "s"], [If(Bin("==", N("n"), I(0)), [Ret(z)], br=False)] + mid + ([Print(N("a"))] if any(m["l"]["s"] == "a" for m in mid) else []) +
                           [As(N("r"), step), Ret(N("r"))]))
            depth = rng.choice([0, 1, 2, 5, 12, 12, 60 if ret == "u" else 20])
            self.fns.append(None); self.fns.pop()
            self.rec = Print(Call(N("rec"), [I(depth), lit("z")]))
        else: self.rec = None
        prog.append(Fn("quiet", [], []))
        self.obj = rng.random() < 0.6
        self.vars, self.fixed = {}, set()
        b = self.stmts(size, 2, None)
        if self.rec: b.insert(rng.randrange(len(b) + 1), self.rec)
        prog.append(Fn("test", ["obj"] if self.obj else [], b))
        for f in prog: self.ends(f["b"])
        if rng.random() < 0.5: rng.shuffle(prog)
        return prog

JUNK = ["<", "+", "%", ";", "=", ",", ".", "/=", "==", "1", "x", ")", "]", "~", "&&", "}"]
def command(rng, prog, style):
    ts = toks(prog)
    seps = separators(rng, ts, style)
    text = weave(ts, seps)
    runs = [("banana", 12), ("", 4294967290)][:rng.choice([1, 1, 2])]
    if any(cost(prog, n, v) is None for n, v in runs): return None
    return "prog %s %s %s " % (hx(json.dumps(prog)), hx(json.dumps(seps)), hx(text)) + " ".join("%s %d" % (hx(n), v) for n, v in runs), text

def made(rng, n, size, wrong):
    out = ["reset"]
    while len(out) <= n:
        prog = Gen(rng, wrong).program(rng.choice([1, size, size]))
        if rng.random() < 0.08:
            for _ in range(rng.choice([1, 2])):
                j = {"k": "junk", "t": [rng.choice(JUNK) for _ in range(rng.choice([1, 2, 3]))]}
                if rng.random() < 0.4: j["t"] += rng.choice([["(", "a", ")"], ["{", "fn", "}"], ["(", "{", "1", "}", ")"]])
                i = rng.randrange(len(prog) + 1)
                if any(f["k"] == "junk" for f in prog[max(0, i - 1):i + 1]): continue
                prog.insert(i, j)
        c = command(rng, prog, rng.choice([0, 0, 1, 2, 2]))
        if c and len(c[1]) < 6000: out.append(c[0])
    return out

PIECES = ["fn", "fn", " ", " ", "\n", "(", ")", "{", "}", "a", "b", "if", "else", "while", "return", "=", "==", "+", "-", "\"", "\"", "${", "$", "\\", ",", ";", ".", "1", "42", "/", "//", "/*", "*/", "[", "]",
          "fn a() {\n", "fn t(a, b)", "print(", "\"a", "<", "&&", "&", "|", "!", "~", "%", ":", "\x80", "\xc3\xa9", "\x00", "'", "@", "true", "99999999999"]
def wild(rng):
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([2, 4, 8, 20, 50])))
def damaged(rng):
    p = Gen(rng, 0.1).program(4)
    ts = toks(p)
    t = weave(ts, separators(rng, ts, 0))[:900]
    if rng.random() < 0.3: return t[:rng.randrange(len(t) + 1)]
    for _ in range(rng.choice([1, 1, 2, 5])):
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice([rng.choice(PIECES), ""]) + t[i + rng.choice([0, 0, 1, 3]):]
    return t
def placed(rng):
    n = rng.choice([0, 3, 40, 255, 256, 257, 300, 511, 512, 520, 1100])
    s = "".join(rng.choice(["a", "b", "\n", " ", "\r\n", "é", "€", "😀", "x" * 30]) for _ in range(n))
    b = s.encode()
    if rng.random() < 0.7: b = b[:n].decode("utf-8", "ignore").encode()
    return b.decode("latin-1")

def run(chk):
    exe = chk.build("crowbar", ["crowbar"])
    chk.model("MCCrowbar", coverage=False)
    rng = chk.rng
    k = 60 if chk.thorough else 1
    chk.known_findings("crowbar", exe, "TraceCrowbarSpec")
    chk.conform("valid", exe, [made(rng, 6, rng.choice([3, 6, 10]), 0) for _ in range(120 * k)], "TraceCrowbarSpec", jobs=8)
    chk.conform("wrong", exe, [made(rng, 8, rng.choice([2, 5]), rng.choice([0.05, 0.15])) for _ in range(100 * k)], "TraceCrowbarSpec", jobs=8)
    chk.conform("any", exe, [["reset"] + ["any " + hx(wild(rng) if rng.random() < 0.5 else damaged(rng)) for _ in range(50)] for _ in range(60 * k)], "TraceCrowbarSpec", jobs=8)
    chk.conform("places", exe, [["reset"] + ["loc " + hx(placed(rng)) for _ in range(10)] for _ in range(16 * k)], "TraceCrowbarSpec", jobs=8)
    chk.require_kinds("prog", "any", "loc")

if __name__ == "__main__":
    sys.exit(main("C19", "Crowbar", run))
