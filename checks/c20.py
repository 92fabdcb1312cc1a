import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from core import *

REPOS = ["plywood", "my-game", "lib_2", "Tools"]
NAMES = ["runtime", "app", "core", "a", "a-b", "x_y", "Draw", "plytool", "net2"]
EXTS = ["zlib", "sass", "a", "gl-3"]
PROVS = ["apt", "prebuilt", "src"]

class World:
    """Repositories with modules, externs and providers. Edges between modules are chosen first; the names they are
    written with follow."""
    def __init__(self, rng, nt, boxes=True, bad=0.1, src=0.3):
        self.rng, self.bad, self.psrc = rng, bad, src
        self.repos = rng.sample(REPOS, rng.choice([1, 1, 2, 3, 4]))
        self.kids = {}
        for i, r in enumerate(self.repos):
            self.kids[r] = [x for x in self.repos[:i] if rng.random() < 0.6]
            rng.shuffle(self.kids[r])
        self.t = []      # (repo, name)
        self.path = []
        while len(self.t) < nt:
            p = (rng.choice(self.repos), rng.choice(NAMES) + rng.choice(["", "", str(len(self.t))]))
            if p not in self.t: self.t.append(p)
        self.edges = []  # per module: [(vis, other)], others come later in the list
        for i in range(nt):
            c = [j for j in range(i + 1, nt) if self.t[j][0] in self.sees(self.t[i][0])]
            rng.shuffle(c)
            self.edges.append([(rng.choice(["pub", "priv"]), j) for j in c[:rng.choice([0, 1, 2, 2, 3, 5])]])
        self.ext = []    # (repo, name)
        self.prov = []   # (repo, extern, name, inst)
    def sees(self, r, seen=None):
        seen = [] if seen is None else seen
        if r not in seen:
            seen.append(r)
            for k in self.kids[r]: self.sees(k, seen)
        return seen
    def call(self, r, i):
        """how module code of repository r can name module i"""
        rr, n = self.t[i]
        amb = [x for x in self.t if x[0] in self.sees(r) and x[1] == n]
        if len(amb) > 1 or n in self.sees(r) or self.rng.random() < 0.3: return rr + "." + n
        return n
    def ecall(self, r, i):
        rr, n = self.ext[i]
        amb = [x for x in self.ext if x[0] in self.sees(r) and x[1] == n]
        if len(amb) > 1 or n in self.sees(r) or self.rng.random() < 0.3: return rr + "." + n
        return n
    def badname(self):
        r = self.rng
        k = r.random()
        n = lambda: r.choice(NAMES + EXTS + REPOS + PROVS + ["nope", "9x", "-q", "a%", "a b".replace(" ", "+")])
        if k < 0.1: return "~"
        if k < 0.2: return r.choice([".", "..", "a.", ".a", "a..b", "a.b.", "9", "a.9", "+", "a.+"])
        return ".".join(n() for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5])))
    def steps(self, i, used):
        rng = self.rng
        r = self.t[i][0]
        out = []
        keys = rng.sample(["K1", "K2", "DEBUG_X", "N"], rng.choice([0, 1, 2]))
        for k in keys: out.append(["def", rng.choice(["pub", "priv"]), k, rng.choice(["1", "0", "1", "~", "x/y"])])
        if keys and rng.random() < 0.2: out.append(["def", "priv", keys[0], "2"])
        if keys and rng.random() < 0.3: out.append(["def", "pub", keys[0], out[0][3]])  # again, to the same value
        for _ in range(rng.choice([0, 1, 1, 2])): out.append(["inc", rng.choice(["pub", "priv"]), rng.choice(["inc", "include/deep", "common", "src"])])
        if rng.random() < 0.25: out.append(["flag", rng.choice(["pub", "priv"]), rng.choice(["exceptions", "exceptions", "other"])])
        if rng.random() < 0.2: out.append(["lib", rng.choice(["-lm", "-lpthread", "${CMAKE_DL_LIBS}", "/opt/x/libq.a"])])
        if rng.random() < 0.1: out.append(["fw", rng.choice(["Cocoa", "OpenGL"])])
        if rng.random() < 0.1: out.append(["dll", rng.choice(["/opt/x/q.dll", "/opt/y/r.dll"])])
        if rng.random() < 0.4: out.append(["dlp", rng.choice(["PLY_DLL", "PYLON", "GAME"])])
        ty = rng.choice(["exe", "exe", "dll", "object", "header", "lib"]) if rng.random() < 0.15 else None
        if ty: out.append(["type", ty])
        k = rng.random()
        if k < self.psrc: out.append([rng.choice(["src", "src", "hdr"]), rng.choice(["src", "lib/a"])] + rng.sample(["main.cpp", "b.cpp", "util/c.cpp", "d.h"], rng.choice([1, 2, 3])))
        elif k < 0.8: out.append(["code", *rng.choice([("yes", "a.cpp"), ("yes", "b.C"), ("no", "c.h")])])
        if rng.random() < 0.1: out.append(["non", "src", "x.natvis"])
        if rng.random() < 0.15: out.append(["pch", rng.choice(["src/main.cpp", "src/zz.cpp"]), rng.choice(["core/Core.h", "~"])])
        for v, j in self.edges[i]: out.append(["dep", v, self.call(r, j)])
        if self.ext and rng.random() < 0.6:
            for j in rng.sample(range(len(self.ext)), rng.choice([1, 1, min(2, len(self.ext))])):
                if self.ext[j][0] in self.sees(r): out.append(["ext", rng.choice(["pub", "priv"]), self.ecall(r, j)])
        while rng.random() < self.bad:
            n = self.badname()
            if self.resolves(r, n): continue
            out.append([rng.choice(["dep", "ext"]), rng.choice(["pub", "priv"]), n])
        head = [s for s in out if s[0] in ("src", "hdr")]
        rng.shuffle(out)
        # a precompiled header is looked for among the sources given so far
        if rng.random() < 0.8:
            out = head + [s for s in out if s not in head]
        return out
    def resolves(self, r, n):
        """a name that might lead to something (and so make an edge not planned)"""
        c = n.split(".")
        if len(c) > 2: return False
        return any(x[1] == c[-1] for x in self.t + self.ext)
    def script(self):
        rng = self.rng
        out = ["reset"] + ["repo %s %s" % (r, " ".join(self.kids[r])) for r in self.repos]
        for r in self.repos:
            for _ in range(rng.choice([0, 1, 1, 2])):
                # a new extern of r's own, or one of those it sees
                c = [j for j in range(len(self.ext)) if self.ext[j][0] in self.sees(r)]
                if c and rng.random() < 0.5:
                    x = rng.choice(c)
                    name = self.ecall(r, x)
                else:
                    n = rng.choice(EXTS)
                    if (r, n) in self.ext: continue
                    clash = any(e[1] == n and e[0] in self.sees(r) for e in self.ext)
                    name = r + "." + n if clash or n in self.sees(r) or rng.random() < 0.3 else n
                    self.ext.append((r, n))
                    x = len(self.ext) - 1
                p = rng.choice(PROVS)
                if (r, x, p) in [y[:3] for y in self.prov]: continue
                inst = rng.random() < 0.8
                self.prov.append((r, x, p, inst))
                steps = [["inc", "pub", "/x/%s/include" % self.ext[x][1]]] * rng.choice([0, 1])
                steps += [["lib", rng.choice(["-l" + self.ext[x][1], "/x/lib/lib%s.a" % self.ext[x][1], "${LIB_%s}" % self.ext[x][1].upper()])] for _ in range(rng.choice([0, 1, 1, 2]))]
                if rng.random() < 0.3: steps.append(["def", "pub", rng.choice(["K1", "USE_" + self.ext[x][1].upper()]), rng.choice(["1", "7"])])
                if rng.random() < 0.2: steps.append(["dll", "/x/bin/q.dll"])
                if rng.random() < 0.2: steps.append(["flag", "pub", "exceptions"])
                if rng.random() < 0.2: steps.append(["fw", "Cocoa"])
                out.append("provider %s %s %s %s %s" % (r, name, p, "yes" if inst else "no", " ".join("; " + " ".join(s) for s in steps)))
        order = list(range(len(self.t)))
        for i in order:
            pre = "/nonexistent/ws/repos/%s/src/%s" % (self.t[i][0], self.t[i][1]) if rng.random() < 0.8 else "/elsewhere/" + self.t[i][1]
            out.append("target %s %s %s %s" % (*self.t[i], pre, " ".join("; " + " ".join(s) for s in self.steps(i, None))))
        return out
    def provname(self, i):
        r, x, p, _ = self.prov[i]
        e = self.ext[x]
        return e[0] + "." + e[1] + "." + (r + "." if r != e[0] else "") + p
    def roots(self):
        """roots in an order in which no member of a shared object sees a module outside of it"""
        rng = self.rng
        for _ in range(20):
            rs = [(rng.randrange(len(self.t)) if rng.random() < 0.5 else rng.randrange(min(3, len(self.t))), rng.random() < 0.35) for _ in range(rng.choice([1, 2, 3, 4]))]
            if self.valid(rs): return rs
        return [(0, False)]
    def valid(self, rs):
        ctr = {}
        def go(i, c):
            if i in ctr: return
            ctr[i] = c
            for _, j in self.edges[i]: go(j, c)
        for i, s in rs: go(i, i + 1 if s else 0)
        vis = {}
        def seen(i):
            if i not in vis:
                vis[i] = {i}
                for v, j in self.edges[i]:
                    if v == "pub": vis[i] |= seen(j)
            return vis[i]
        for i in ctr:
            b = set.union({i}, *[seen(j) for _, j in self.edges[i]])
            if ctr[i] and any(not ctr[j] for j in b): return False
            if any(ctr[j] != ctr[i] and not ctr[j] for _, j in self.edges[i]): return False
        return True

def project(rng, nt):
    w = World(rng, nt, bad=rng.choice([0, 0, 0.2]), src=rng.choice([0.2, 0.6]))
    out = w.script()
    out.append("names")
    chosen = [i for i in range(len(w.prov)) if rng.random() < 0.7]
    out += ["select " + w.provname(i) for i in chosen]
    for k, (i, s) in enumerate(w.roots()):
        out.append("root %d %s" % (i + 1, "yes" if s else "no"))
        if rng.random() < 0.3: out.append("state")
    out += ["state", "propagate", "state"]
    out.append("cmake %s no ~" % rng.choice(["sol", "My-Solution"]))
    if rng.random() < 0.5: out.append("cmake boot yes %s" % rng.choice(["~", "/nonexistent/ws/repos/my-game/src/", "/elsewhere/"]))
    return out

def lookups(rng):
    w = World(rng, rng.choice([1, 3, 6, 9]))
    out = w.script() + ["names"]
    for _ in range(40):
        k = rng.choice(["target", "extern", "provider"])
        z = rng.random()
        if k == "target": n = rng.choice(w.t)
        elif k == "extern": n = rng.choice(w.ext) if w.ext else ("a", "b")
        else: n = tuple(w.provname(rng.randrange(len(w.prov))).split(".")) if w.prov else ("a", "b", "c")
        n = list(n)
        if z < 0.3: n = n[1:]
        elif z < 0.4: n.insert(rng.randrange(len(n) + 1), rng.choice(REPOS + EXTS + PROVS + NAMES))
        elif z < 0.5: n[rng.randrange(len(n))] = rng.choice(REPOS + EXTS + PROVS + NAMES)
        elif z < 0.6: n = n[:-1]
        n = ".".join(n) if n and z < 0.85 else w.badname()
        out.append("look %s %s" % (k, n))
    return out

def deadly(rng):
    """a module that depends on itself in the end, or twice on the same thing"""
    while True:
        w = World(rng, rng.choice([1, 2, 4, 6]), bad=0)
        n = len(w.t)
        i = rng.randrange(n)
        if rng.random() < 0.6:
            c = [j for j in range(i + 1) if w.t[j][0] in w.sees(w.t[i][0]) and j not in [e[1] for e in w.edges[i]]]
        else: c = [j for _, j in w.edges[i]]
        if not c: continue
        w.edges[i].insert(rng.randrange(len(w.edges[i]) + 1), ("priv", rng.choice(c)))
        return w.script() + ["select " + w.provname(k) for k in range(len(w.prov)) if rng.random() < 0.8] + ["die 1 %s" % rng.choice(["yes", "no"])]

FILES = ["a.cpp", "b.c", "B.C", "c.h", "D.H", "e.hpp", "f.natvis", "G.NatVis", "x.modules.cpp", "modules.cpp", "y.Cpp", "README", "z.txt", ".cpp", "h.cpp.bak", "a.h", "my.modules.cpp.h", "k.cc", "a.b.cpp", "a-b.cpp"]
def sources(rng):
    out = ["reset"]
    for _ in range(10):
        ds = ["", "", "sub/", "sub/deep/", "a/", "s.cpp/", "Sub/"]
        fs = sorted({rng.choice(ds) + rng.choice(FILES) for _ in range(rng.choice([0, 1, 3, 8, 14]))})
        rng.shuffle(fs)
        out.append("sources %s %s" % (rng.choice(["yes", "yes", "no"]), " ".join(fs)))
    for _ in range(3):
        out.append("adddep 3 " + " ".join("%s %d" % (rng.choice(["pub", "priv"]), rng.randint(1, 3)) for _ in range(rng.randint(0, 6))))
    for t in ("exe", "dll", "lib"):
        out.append("outpath %s %s %s %s" % (t, rng.choice(NAMES), rng.choice(["/w/data/build/x/", "/b/"]), rng.choice(["Debug", "RelWithAsserts"])))
    return out

def run(chk):
    exe = chk.build("build", ["build-repo"])
    chk.model("BuildGraphMC", coverage=False)
    rng = chk.rng
    k = 40 if chk.thorough else 1
    chk.known_findings("build", exe, "TraceBuildSpec")
    chk.conform("projects", exe, [project(rng, rng.choice([1, 2, 4, 6, 9, 12])) for _ in range(240 * k)], "TraceBuildSpec", jobs=8)
    chk.conform("lookups", exe, [lookups(rng) for _ in range(60 * k)], "TraceBuildSpec", jobs=8)
    chk.conform("deadly", exe, [deadly(rng) for _ in range(40 * k)], "TraceBuildSpec", jobs=8)
    chk.conform("sources", exe, [sources(rng) for _ in range(20 * k)], "TraceBuildSpec", jobs=4)
    chk.require_kinds("names", "look", "select", "root", "die", "propagate", "state", "cmake", "outpath", "sources", "adddep")

if __name__ == "__main__":
    sys.exit(main("C20", "Build targets", run))
