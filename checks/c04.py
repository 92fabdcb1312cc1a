import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

TY = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
      "s8": (-2**7, 2**7 - 1), "s16": (-2**15, 2**15 - 1), "s32": (-2**31, 2**31 - 1), "s64": (-2**63, 2**63 - 1)}
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"

def tobase(v, r, up=False):
    s, n = "", abs(v)
    while True:
        s = DIG[n % r] + s
        n //= r
        if not n:
            break
    s = s.upper() if up else s
    return ("-" if v < 0 else "") + s

def intval(rng, ty):
    lo, hi = TY[ty]
    k = rng.random()
    if k < 0.35:
        return rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, 9, 10, 16, 35, 36])
    if k < 0.5:                       # just outside
        return rng.choice([lo - 1, hi + 1, hi + 2, hi * 2, hi * 2 + 1, hi * 10, lo * 2, lo - 2, hi + hi // 2, 2**64, 2**64 - 1, 2**64 + 1, -2**64, -2**64 + 1, 2**64 + 5, 2**65 + 3])
    if k < 0.8:
        return rng.randrange(-50, 300)
    return rng.randrange(lo, hi + 1) >> rng.randrange(0, 60) if lo == 0 else rng.randrange(lo, hi + 1)

def realtext(rng, radix):
    d = DIG[:radix] if radix < 14 or rng.random() < .5 else DIG[:radix].upper()
    s = rng.choice(["", "", "-"])
    s += "".join(rng.choice(d) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 12, 25] if radix == 10 else [1, 2, 3, 8])))
    if rng.random() < 0.75:
        s += "." + "".join(rng.choice(d) for _ in range(rng.choice([0, 1, 2, 3, 6, 10, 19, 20, 21, 25, 45])))
    if rng.random() < 0.35:
        s += rng.choice("eE") + rng.choice(["", "+", "-", "-"]) + rng.choice(["", "0", "1", "2", "5", "10", "007"])
    return s

def quoted(rng, single):
    q = rng.choice(['"', "'"] if single else ['"'])
    k = rng.random()
    triple = k < 0.25
    body = ""
    for _ in range(rng.choice([0, 0, 1, 2, 5, 12])):
        body += rng.choice(["a", "b ", "\\n", "\\\\", "\\t", "\\r", "\\" + q, "é", "'", '"', "\\'"] +
                           (["\n", "\r\n", q, q + q, "\\x"] if triple else []))
        if rng.random() < 0.04:
            body += rng.choice(["\n", "\\x", "\\", "\\\n", "\\q"])
    if not triple:
        body = body.replace(q, "") if "\\" not in body else body
        if rng.random() < 0.06:
            return q + body
        return q + body + q
    return q * 3 + body + (q * 3 if rng.random() < 0.9 else q)

def text_of(rng, n):
    return "".join(rng.choice(["a", "Z", "0", "-", " ", "\n", "\t", "\r\n", '"', "\\", "<", ">", "&", "é", "€", "😀", "'"])
                   for _ in range(n))

def seg_read(rng):
    ops, t = [], b""
    for _ in range(rng.randrange(3, 22)):
        k = rng.randrange(8)
        if k <= 1:
            ty = rng.choice(list(TY)); r = rng.choice([10, 10, 10, 16, 2, 8, 36, rng.randrange(2, 37)])
            tok = tobase(intval(rng, ty), r, rng.random() < .5)
            if rng.random() < 0.1:
                tok = rng.choice(["", "-", "--1", "+1", "0000" + tok.lstrip("-")])
            ops.append("int %s %d" % (ty, r)); t += tok.encode()
        elif k == 2:
            r = rng.choice([10, 10, 10, 16, 2, 7, 3, 30])
            ops.append("real %d %d %d" % (r, {10: 4, 16: 4, 2: 12}.get(r, 4), 0)); t += realtext(rng, r).encode()
        elif k == 3:
            single = rng.randrange(2)
            ops.append("quoted %d" % single); t += quoted(rng, single).encode()
        elif k == 4:
            a, b = rng.randrange(2), rng.randrange(2)
            t += rng.choice(["abc", "_", "x9", "Z_a1", "9a", "$v", "a$b", "a-b", "-", "é1", "", "@", "[", "{", "`", "a:b", "n/a"]).encode()
            ops.append("ident %d %d" % (a, b))
        elif k == 5:
            ops.append("white %d" % rng.randrange(2)); t += text_of(rng, rng.randrange(6)).encode()
        elif k == 6:
            ops.append("line %d" % rng.randrange(2)); t += text_of(rng, rng.randrange(9)).encode() + rng.choice([b"\n", b"\n", b""])
        if rng.random() < 0.8:
            w = rng.choice([b" ", b"\n", b"  ", b"\r\n", b"\t \n", b",", b";"])
            t += w
            ops.append("white 1" if w.strip() == b"" else "line 0" if rng.random() < .1 else "white 0")
    if rng.random() < 0.1:            # spread over several blocks
        t = t + b" " * rng.randrange(200) + t
    if rng.random() < 0.5:
        s = "open %s 0" % hexs(t)
    else:
        s = "open %s %d %s" % (hexs(t), rng.choice([7, 7, 8, 12]), " ".join(map(str, rng.choice([[], [1], [2, 3], [rng.randrange(1, 20) for _ in range(4)]]))))
    return ["reset", s] + ops

def seg_print(rng):
    s = ["reset"]
    for _ in range(20):
        k = rng.randrange(9)
        ty = rng.choice(list(TY))
        lo, hi = TY[ty]
        if k <= 1:
            v = max(lo, min(hi, intval(rng, ty)))
            s.append("print %s %x %d %d" % (ty, v & (2**64 - 1), rng.choice([0, 0, 10, 16, 2, 36, rng.randrange(2, 37)]), rng.randrange(2)))
        elif k <= 3:
            t = tobase(intval(rng, ty), 10)
            t = rng.choice(["", "", " ", "\t\n"]) + t + rng.choice(["", "", " ", "x", " 1", "\r\n", ".", "\v"])
            d = rng.choice([0, 7, hi, lo])
            s.append("to %s %s %x" % (ty, hexs(t.encode()), d & (2**64 - 1)))
        elif k == 4:
            s.append("eighths %d" % rng.choice([0, 1, -1, 8, -8, 79, 80, 8000, rng.randrange(-790000, 790000), rng.randrange(-900, 900)]))
        elif k == 5:
            m = rng.randrange(1000, 10000) * 10 + 5
            x = rng.choice([-10, -9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 3, 5, 20, 100, 250, -30, -100, -290])
            if x == 0:
                x = 2
            s.append("printreal %d %d %d %d" % (rng.randrange(2), m, x, 1 if abs(x) < 20 and rng.random() < .3 else 0))
        elif k == 6:
            b = text_of(rng, rng.choice([0, 1, 3, 10, 30])).encode()
            if rng.random() < 0.3:
                i = rng.randrange(len(b) + 1)
                b = b[:i] + rng.choice([b"\x80", b"\xff", b"\xe2\x82", b"\xf0\x9f", b"\xc3", b"\xc0\xa2", b"\xc0\x86", b"\xe0\x80\xbc", b"\x01", b"\x1f", b"\x7f", b"\x00"]) + b[i:]
            s.append("escape %s %s %d" % (rng.choice(["string", "xml"]), hexs(b), rng.choice([0, 0, 1, 2, 5, 31])))
        elif k == 7:
            b = "".join(rng.choice(["a", "\\", '"', " ", "\\\\", "\t", "b/c"]) for _ in range(rng.choice([0, 1, 2, 3, 6]))).encode()
            s.append("crtarg " + hexs(b))
        else:
            n = rng.randrange(4)
            parts = ["{}"] * n + ["{{", "}}", "x", "yz", ""] * rng.randrange(3)
            rng.shuffle(parts)
            s.append("format %s %s" % (hexs("".join(parts).encode()), " ".join(hexs(text_of(rng, rng.randrange(4)).encode() if rng.random() < .8 else b"{}") for _ in range(n))))
    return s

def run(chk):
    exe = chk.build("textsyntax")
    chk.model("MCTextSyntax")
    k = 10 if chk.thorough else 1
    segs = [seg_read(chk.rng) for _ in range(2500 * k)] + [seg_print(chk.rng) for _ in range(900 * k)]
    chk.known_findings("textsyntax", exe, "TraceTextSyntax")
    chk.conform("textsyntax", exe, segs, "TraceTextSyntax", jobs=8)
    chk.require_kinds("int", "real", "quoted", "ident", "white", "line", "print", "to", "eighths", "printreal", "escape", "crtarg", "format")

if __name__ == "__main__":
    sys.exit(main("C04", "text syntax", run))
