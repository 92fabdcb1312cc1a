import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

ENCS = ["utf8", "utf16le", "utf16be"]
PY = {"utf8": "utf-8", "utf16le": "utf-16-le", "utf16be": "utf-16-be"}
POINTS = [0x41, 0x20, 0x7f, 0x80, 0xe9, 0x95, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xfeff,
          0xffff, 0x10000, 0x1f600, 0x10ffff, 10, 9]

def text(rng, n, ctl=False):
    s = ""
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            s += chr(rng.randrange(32, 127))
        elif r < 0.55:
            s += rng.choice(["\n", "\r\n", "\n\n", "\r\n"])
        elif r < 0.9:
            s += chr(rng.choice(POINTS))
        else:
            p = rng.choice([rng.randrange(0x80, 0xd800), rng.randrange(0xe000, 0x110000)])
            s += chr(p)
        if ctl and rng.random() < 0.02:
            s += chr(rng.choice([0, 1, 27, 13]))
    return s

def defined(b):
    """No well-formed-looking UTF-8 sequence denotes an overlong or out-of-range value."""
    for i in range(len(b)):
        f = b[i]
        need = 2 if 192 <= f < 224 else 3 if 224 <= f < 240 else 4 if 240 <= f < 248 else 0
        s = b[i:i + need]
        if need and len(s) == need and all(128 <= x < 192 for x in s[1:]):
            v = f & (0x7f >> need)
            for x in s[1:]:
                v = v << 6 | (x & 63)
            if v < (0, 0, 0x80, 0x800, 0x10000)[need] or v > 0x10ffff:
                return False
    return True

def raw(rng, enc, n):
    while True:
        b = raw1(rng, enc, n)
        if enc != "utf8" or defined(b):
            return b

def raw1(rng, enc, n):
    t = text(rng, n)
    b = bytearray(t.encode(PY[enc], "surrogatepass"))
    if rng.random() < 0.45:
        # malformed: stray units, truncated or broken sequences
        for _ in range(rng.randrange(1, 4)):
            i = rng.randrange(len(b) + 1)
            k = rng.randrange(4)
            if enc == "utf8":
                # never a lead byte that would form an overlong or out-of-range sequence
                ins = [bytes([rng.randrange(0x80, 0xc0)]), bytes([rng.choice([0xf8, 0xff, 0xfe])]),
                       "€".encode()[:2], "😀".encode()[:3]][k]
            else:
                u = [0xd800, 0xdc00, 0xdbff, 0xdfff][k]
                ins = u.to_bytes(2, "little" if enc == "utf16le" else "big")
                i -= i % 2
            b[i:i] = ins
        if rng.random() < 0.4 and b:
            del b[-1]
    return bytes(b)

def pieces(rng, b, maxn):
    out, i = [], 0
    mode = rng.choice([1, 2, 3, maxn])
    while i < len(b):
        n = rng.randrange(1, mode + 1)
        out.append(b[i:i + n]); i += n
    return out

def seg_conv(rng):
    s = ["reset"]
    src, dst = rng.choice(ENCS + ["bytes"]), rng.choice(ENCS)
    if rng.random() < 0.1:
        dst = "bytes"
    s.append("conv %s %s" % (src, dst))
    b = raw(rng, "utf8" if src == "bytes" else src, rng.randrange(1, 30))
    for p in pieces(rng, b, 12):
        s.append("feed %s %d 0" % (hexs(p), rng.choice([1, 1, 2, 3, 4, 5, 8, 64])))
        if rng.random() < 0.03:
            s.append("feed x %d 1" % 64)
    s.append("feed x %d 1" % rng.choice([1, 2, 3, 64]))
    s.append("feed x 64 1")
    s.append("once %s %s %s" % (src, dst, hexs(b)))
    return s

def seg_export(rng, big=False):
    f = (rng.choice(ENCS + ["bytes"] if rng.random() < .8 else ENCS), rng.randrange(2), rng.randrange(2))
    if f[0] == "bytes":
        f = (f[0], f[1], 0)
    s = ["reset", "expopen %s %d %d %d" % (f + (rng.choice([7, 7, 8, 12]),))]
    for _ in range(rng.randrange(1, 6)):
        t = text(rng, rng.randrange(0, 60), True).encode()
        for p in pieces(rng, t, 50):
            s.append("expwrite " + hexs(p))
        if rng.random() < 0.5:
            s.append("expflush %d" % rng.randrange(2))
    if rng.random() < 0.2:
        s.append("expwrite " + hexs(raw(rng, "utf8", 10)))
    s.append("expclose")
    return s

def seg_import(rng):
    f = (rng.choice(ENCS + ["bytes"] if rng.random() < .8 else ENCS), rng.randrange(2), rng.randrange(2))
    if f[0] == "bytes":
        f = (f[0], f[1], 0)
    b = raw(rng, "utf8" if f[0] == "bytes" else f[0], rng.choice([0, 1, 5, 20, 60, 200]))
    if f[2] and rng.random() < 0.8:
        b = {"utf8": b"\xef\xbb\xbf", "utf16le": b"\xff\xfe", "utf16be": b"\xfe\xff"}[f[0]] + b
    sched = rng.choice([[], [1], [2, 3], [127, 1], [rng.randrange(1, 9) for _ in range(3)]])
    sizes = rng.choice([[1], [2], [5, 1], [100], [rng.randrange(1, 60) for _ in range(3)]])
    return ["reset", "import %s %d %d %d %s %d %s" % (f + (rng.choice([7, 8, 12]), hexs(b), len(sched),
                                                   " ".join(map(str, sched + sizes))))]

def seg_detect(rng, big=False):
    enc = rng.choice(ENCS)
    n = rng.choice([0, 1, 2, 3, 10, 50, 200])
    t = text(rng, n, rng.random() < 0.2)
    if rng.random() < 0.3:
        t = t.replace("\r\n", "\n")
    elif rng.random() < 0.5:
        t = t.replace("\r\n", "\n").replace("\n", "\r\n")
    bom = rng.random() < 0.5
    b = (("\ufeff" if bom else "") + t).encode(PY[enc])
    if rng.random() < 0.1:
        b = raw(rng, "utf8", n)
    sched = rng.choice([[], [1], [2, 3], [127, 1], [rng.randrange(1, 9) for _ in range(3)]])
    return ["reset", "detect %d %s %s" % (rng.choice([7, 8, 12]), hexs(b), " ".join(map(str, sched)))]

def seg_file(rng):
    f = (rng.choice(ENCS), rng.randrange(2), rng.randrange(2))
    return ["reset", "savetext %s %d %d %s" % (f + (hexs(text(rng, rng.choice([0, 1, 5, 40, 150])).encode()),))]

def seg_long(rng):
    # longer than the buffers (4096) the importers, exporters and the detector work with
    f = (rng.choice(ENCS), rng.randrange(2), rng.randrange(2))
    n = rng.choice([1300, 1365, 2040, 4090, 4100])
    pat = rng.choice(["€", "é\n", "ab\r\n", "😀", "x😀y", "aé€"])
    t = "a" * rng.randrange(4) + pat * (n // len(pat))
    return ["reset", "savetext %s %d %d %s" % (f + (hexs(t.encode()),))]

def seg_loc(rng):
    # a map of a text: lines longer than its 256 byte steps, tabs, characters across them
    kind = rng.randrange(4)
    n = rng.choice([0, 1, 5, 60, 255, 256, 257, 300, 511, 512, 513, 700])
    if kind == 0:
        b = raw(rng, "utf8", n // 2)
    elif kind == 1:
        b = ("a" * rng.randrange(4) + rng.choice(["€", "é", "😀", "\t€", "\t", "ab\t"]) * n).encode()
    else:
        b = "".join(rng.choice(["word", " ", "\t", "\n", "\r\n", "€", "é", "😀", "x" * rng.randrange(80)])
                    for _ in range(n // 3)).encode()
    b = b[:n] if rng.random() < .7 else b[:900]
    if not defined(b):
        return seg_loc(rng)
    near = {0, 1, len(b), len(b) - 1}
    for k in range(256, len(b) + 3, 256):
        near |= set(range(k - 4, k + 5))
    qs = sorted(q for q in near | {rng.randrange(len(b) + 1) for _ in range(6)} if 0 <= q <= len(b))
    return ["reset", "loc %s %s" % (hexs(b), " ".join(map(str, qs)))]

def run(chk):
    exe = chk.build("textcodec")
    chk.model("MCTextCodec")
    k = 8 if chk.thorough else 1
    rng = chk.rng
    segs = []
    for _ in range(900 * k):
        segs.append(seg_conv(rng))
    for _ in range(250 * k):
        segs.append(seg_export(rng))
        segs.append(seg_import(rng)); segs.append(seg_import(rng))
        segs.append(seg_detect(rng)); segs.append(seg_detect(rng))
    for _ in range(150 * k):
        segs.append(seg_file(rng))
        segs.append(seg_loc(rng))
    for _ in range(16 * k):
        segs.append(seg_long(rng))
    chk.conform("textcodec", exe, segs, "TraceTextCodec", jobs=8)
    chk.require_kinds("conv", "feed", "once", "expopen", "expwrite", "expflush", "import", "detect", "export", "auto", "loc")

if __name__ == "__main__":
    sys.exit(main("C03", "text conversion", run))
