#!/usr/bin/env python3
"""C21: the web server."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from core import main

def hx(s):
    if isinstance(s, str): s = s.encode()
    return "x" + s.hex()

EXT = [".css", ".js", ".png", ".svg", ".woff", ".woff2", ".ttf", ".eot"]

class Site:
    def __init__(self, rng):
        self.rng = rng
        self.static, self.src, self.pages, self.toc = [], [], [], []
        self.out = ["reset 4"]
        r = rng
        names = ["a", "b", "site", "jquery.min", "x-1", "A", "favicon@32x32", ".hidden", "d.css", "a b", "s.", "%41", "é"]
        for _ in range(r.choice([1, 3, 6])):
            p = r.choice(["", "", "sub/", "fonts/x/", "d.css/", ".git/"]) + r.choice(names) + r.choice(EXT + [".txt", "", ".CSS", ".min.js", ".html", ".tar.png", "."])
            self.add("root/static/" + p, self.data(r.choice([0, 1, 20, 200, 380])), self.static)
        self.add("root/static/favicon@32x32.png", self.data(50), self.static)
        for _ in range(r.choice([1, 3, 5])):
            p = r.choice(["", "src/", "src/deep/"]) + r.choice(["a.cpp", "b.h", "README", "x.y.z", "w&<1>.cpp", ".ply"])
            self.add("ws/" + p, self.text(), self.src)
        for _ in range(r.choice([1, 3, 6])):
            p = r.choice(["", "", "mod/", "mod/sub/"]) + r.choice(["intro", "index", "Array", "a.b", "mod", "100%", "..x"])
            t = r.choice(["Title", "  A & B\t", "", "<code>x</code>"]) + r.choice(["\n", "\n", "\n", ""])
            body = r.choice(["", "<p>text</p>\n", "x", "\n\n<h2>A</h2>\n<p>y</p>"])
            self.add("root/pages/" + p + ".html", t + body, self.pages)
        for p in ["outside/secret.css", "outside/secret.html", "root/secret.html", "root/secret.css", "ws2/x.cpp", "secret.css", "root/static2/s.css", "root/pages2/p.html"]:
            if r.random() < 0.6: self.add(p, "SECRET\n" + p, [])
    def add(self, p, d, to):
        if isinstance(d, str): d = d.encode()
        if any(x == p or x.startswith(p + "/") or p.startswith(x + "/") for x in getattr(self, "all", [])): return
        self.all = getattr(self, "all", []) + [p]
        to.append(p.split("/", 2)[2] if p.count("/") > 1 and p.startswith("root/") else p.split("/", 1)[-1])
        self.out.append("file %s %s" % (hx(p), hx(d)))
    def data(self, n):
        return bytes(self.rng.choice([0, 10, 13, 255, 65, 200, 48]) for _ in range(n))
    def text(self):
        r = self.rng
        return "".join("".join(r.choice(["int x", " ", "<", ">", "&", '"', "'", "a", "\t", "//"]) for _ in range(r.choice([0, 1, 4, 9]))) + r.choice(["\n", "\n", "\n", "" ]) for _ in range(r.choice([0, 1, 2, 6])))
    def newtoc(self):
        r = self.rng
        if r.random() < 0.12:
            return "badtoc " + hx(r.choice(["", "[", "{ title: }", "[ { title: \"x\" }", "]", "[ { title: \"A\" ]"]))
        if r.random() < 0.06: return "notoc"
        out, d = [], 0
        for _ in range(r.choice([0, 1, 3, 6, 10])):
            d = r.randint(1, min(d + 1, 4))
            links = ["/docs/" + p[:-5] for p in self.pages] + ["/", "/docs/", "/docs/mod", "/docs/nope", ""]
            out.append("%d %s %s" % (d, hx(r.choice(["One", "A & B", "<T>", "\"q\"", "x y", "Array"])), hx(r.choice(links))))
        return "toc %s %s" % (r.choice(["full", "full", "full", "terse"]), " ".join(out))
    def twist(self, p):
        """the same path written otherwise, or one that leads elsewhere"""
        r = self.rng
        c = p.split("/")
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.randrange(len(c) + 1)
            c[k:k] = r.choice([["."], [""], ["x", ".."], [".."], ["..", ".."], ["..", "root"], ["..", "static"], ["..", "pages"], ["..", "..", "outside"], ["a", "b", "..", ".."], ["..."], ["..", "..", "..", ".."]])
        if r.random() < 0.08: c[r.randrange(len(c))] += r.choice(["\0", "\0.css", "?", "x", "/", "%2e%2e", "\\", "//"])
        return "/".join(c)
    def uri(self):
        r = self.rng
        z = r.random()
        if z < 0.30:
            p = r.choice(self.static + ["secret.css", "outside/secret.css", "../secret.css", "../../outside/secret.css", "../../secret.css", "../static2/s.css", "nope.css", "nope", ""])
            p = "/static/" + self.twist(p[7:] if p.startswith("static/") else p)
            if r.random() < 0.15: p += r.choice(["?1", "?v=a.b/c.txt", "??", "?x.css", "?/../.."])
            return p
        if z < 0.45:
            return "/file/" + r.choice(["", "", "/", "//"]) + self.twist(r.choice(self.src + ["nope.cpp", "src", "", "../ws2/x.cpp", "../root/secret.css", "../outside/secret.css"]))
        if z < 0.68:
            p = r.choice([x[:-5] for x in self.pages] + ["mod", "", "mod/", "nope", "../secret", "../../outside/secret", "../pages2/p"])
            return r.choice(["/docs/", "/docs/", "/content?path=/docs/"]) + self.twist(p)
        if z < 0.74: return r.choice(["/", "/echo", "/echo/", "/echo//", "/favicon.ico", "/docs", "*", "/static", "//", "/x", "/echo/x", "/docs//", "/file"])
        k = r.random()
        if k < 0.15: return "/t/none"
        if k < 0.4: return "/t/gen/%d" % r.choice([200, 400, 404, 500])
        n = r.choice([0, 0, 1, 2, 15, 16, 255, 256, 4095, 4096, 4097, 8192, 20000, 70000])
        u = "/t/%s/%d/%d" % (r.choice(["body", "flush"]), n, r.choice([1, 7, 16, 256, 4096, 5000]) if n < 5000 else r.choice([256, 4096, 5000, 100000]))
        if r.random() < 0.2: u += "/%d" % r.choice([1, 50, 408, 409, 410, 1000])
        return u
    def request(self, ver=None):
        r = self.rng
        ver = ver or r.choice(["HTTP/1.1"] * 6 + ["HTTP/1.0", "HTTP/2", "http/1.1"])
        nl = r.choice(["\r\n", "\r\n", "\n"])
        uri = self.uri().replace(" ", "_").replace("\n", "").replace("\r", "").replace("\t", "")
        out = r.choice(["GET", "GET", "HEAD", "X"]) + " " + uri + " " + ver + r.choice(["", "", "", " ", " \t"]) + nl
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            out += r.choice(["Host: localhost", "A:b", "Accept : */*", "X:", ": v", "Cookie: a=b; c: d", " folded", "\tfolded: x", "Name:  v w \t", "K: " + "v" * 300, "É: é"]) + nl
        return out + r.choice(["", "", "", " ", "\t"]) + nl
    def refused(self):
        r = self.rng
        return r.choice(["GET /\r\n\r\n", "GET\r\n\r\n", "GET  / HTTP/1.1\r\n\r\n", " GET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1 x\r\n\r\n", "GET / HTTP/1.1\r\nnocolon\r\n\r\n",
                         "\r\n", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA: b\r\n", "GET / HTTP/1.1", "G", "\n\n", "GET / HTTP/1.1\r\nA: b\r\nx", "\0\r\n\r\n", "GET\t/\tHTTP/1.1\r\n\r\n", "GET /t/gen/404 HTTP/1.1\r\nA: b\r\n:\r\nq\r\n\r\n"])
    def stream(self):
        r = self.rng
        s = ""
        for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5])):
            q = self.request()
            s += q
            if " HTTP/1.1" not in q.split("\n")[0] and r.random() < 0.9: return s.encode("utf-8")
        if r.random() < 0.1:
            s += "GET /t/begin HTTP/1.%d\r\n\r\n" % r.choice([0, 1, 1])
            if r.random() < 0.6: s += self.request()
        if r.random() < 0.2: s += self.refused()
        return s.encode("utf-8")
    def cut(self, b):
        r = self.rng
        k = sorted(r.randrange(len(b) + 1) for _ in range(r.choice([0, 0, 1, 2, 5])))
        return [b[i:j] for i, j in zip([0] + k, k + [len(b)])]

def conns(rng):
    s = Site(rng)
    out = s.out
    if rng.random() < 0.85: out.append(s.newtoc())
    if rng.random() < 0.5: out.append("init")
    for _ in range(6):
        if rng.random() < 0.4: out.append(s.newtoc())
        if rng.random() < 0.1: out.append("init")
        # several connections at once
        ids = list(range(1, rng.choice([1, 1, 2, 3]) + 1))
        todo = {i: [("open", i)] + [("send", i, x) for x in s.cut(s.stream())] + [("finish", i)] for i in ids}
        for i in ids:
            z = rng.random()
            if z < 0.12: todo[i] = todo[i][:rng.randrange(1, len(todo[i]))] + [(rng.choice(["reset_conn", "drop"]), i)]
            elif z < 0.3: # answers come before anything else is asked
                b, steps = b"", [("open", i)]
                for k in range(rng.choice([1, 2, 3])):
                    q = s.request("HTTP/1.1").encode("utf-8")
                    steps += [("send", i, x) for x in s.cut(q)] + [("expect", i, k + 1)]
                todo[i] = steps + [("finish", i)]
        live = list(ids)
        while live:
            i = rng.choice(live)
            st = todo[i].pop(0)
            if not todo[i]: live.remove(i)
            if st[0] == "send":
                if st[2]: out.append("send %d %s" % (st[1], hx(st[2])))
                if rng.random() < 0.1: out.append("pause 300")
            else: out.append(" ".join(map(str, st)))
    for _ in range(3):
        out.append("urlesc " + hx(bytes(rng.choice([rng.randrange(256), 45, 46, 95, 126, 64, 91, 96, 123, 47, 58, 15, 16]) for _ in range(rng.choice([0, 1, 5, 30])))))
    return out

def rude(rng):
    """clients that go away: in the middle of a request, with answers unread, with a reset"""
    s = Site(rng)
    out = s.out + ["toc full 1 %s %s" % (hx("T"), hx("/"))]
    for k in range(10):
        out.append("open %d" % k)
        q = rng.choice([b"GET /t/body/200000/5000 HTTP/1.1\r\n\r\n" * rng.choice([1, 20]), s.stream(), b"GET /", b"", b"GET /t/flush/3000/10 HTTP/1.0\r\n\r\n"])
        if q: out.append("send %d %s" % (k, hx(q)))
        if rng.random() < 0.5: out.append("pause %d" % rng.choice([100, 2000]))
        out.append("%s %d" % (rng.choice(["drop", "reset_conn"]), k))
    out += ["pause 20000", "open 99", "send 99 " + hx(s.request("HTTP/1.1")), "finish 99"]
    return out

def storm(rng, rounds):
    s = Site(rng)
    for i in range(12): s.add("root/pages/p%d.html" % i, "P%d\nbody" % i, s.pages)
    return s.out + ["storm %d 8 150" % rounds, "open 1", "send 1 " + hx("GET /docs/p3 HTTP/1.1\r\n\r\n"), "finish 1"]

def run(chk):
    import vbuild
    exe = chk.build("web", ["web-serve-docs", "web-common"], extra_flags="-I" + vbuild.SRC + "/apps")
    chk.model("WebMC", coverage=False)
    rng = chk.rng
    k = 30 if chk.thorough else 1
    chk.known_findings("web", exe, "TraceWebSpec")
    chk.conform("conns", exe, [conns(rng) for _ in range(160 * k)], "TraceWebSpec", jobs=8, nondet=True)
    chk.conform("rude", exe, [rude(rng) for _ in range(12 * k)], "TraceWebSpec", jobs=4, nondet=True)
    chk.conform("storm", exe, [storm(rng, 300 * k)], "TraceWebSpec", jobs=1, nondet=True)
    chk.require_kinds("file", "toc", "badtoc", "init", "conn", "answered", "drop", "urlesc", "storm")

if __name__ == "__main__":
    sys.exit(main("C21", "Web server", run))
