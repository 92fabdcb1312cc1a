#!/usr/bin/env python3
"""Planted bugs: 'seeds.py make FILE.py' writes /verif/seeded/<id>/ from a description;
'seeds.py test ID...' applies each to /repo, builds, runs the stable tests, the demo and the
property's check, undoes it and runs the demo again."""
import sys, os, json, subprocess, shutil
V = "/verif/seeded"
SRC = "/repo/repos/plywood/src/"
DEMO = r'''#!/bin/bash
# run with cwd /repo after the build: 0 if the property holds for this history, nonzero if not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
S=$PWD/repos/plywood/src
W=$PWD/_build/ws/data/build/all
L=$W/build/Debug
clang++ -std=c++14 -pthread -g -O0 -DPLY_WITH_ASSERTS=1 -fno-exceptions -Wno-everything %(flags)s \
  -I$W/codegen/ply-platform -I$S/platform -I$S/runtime %(incs)s "$here/demo.cpp" -o "$t/demo" %(libs)s $L/libruntime.a -ldl || exit 3
cd "$t" && timeout 100 ./demo
'''
HEAD = '''#include <utility>
#include <ply-runtime/Base.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace ply;
#define CHECK(c) do { if (!(c)) { printf("FAILED line %d: %s\\n", __LINE__, #c); fflush(stdout); _Exit(1); } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): subprocess.check_call("git -C /repo checkout -q -- .", shell=True)

def seed(id, prop, path, pairs, demo, needs, what, incs=(), libs=(), flags="", sh_text=None, head=True, extra={}):
    assert not sh("git -C /repo status --short").stdout.strip(), "repo dirty"
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    edits = path if isinstance(path, dict) else {path: pairs}
    for p, prs in edits.items():
        s = open(SRC + p).read()
        for a, b in prs:
            assert s.count(a) == 1, (id, p, s.count(a), a)
            s = s.replace(a, b)
        open(SRC + p, "w").write(s)
    diff = sh("git -C /repo diff").stdout
    clean()
    open(d + "/patch.diff", "w").write(diff)
    if sh_text is None:
        sh_text = DEMO % dict(flags=flags, incs=" ".join("-I$S/" + i for i in incs), libs=" ".join("$L/lib%s.a" % l for l in libs))
    open(d + "/demo.sh", "w").write(sh_text)
    os.chmod(d + "/demo.sh", 0o755)
    if demo is not None:
        open(d + "/demo.cpp", "w").write((HEAD if head else "") + demo)
    for n, t in extra.items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print("made", id)

def test(ids, check=True):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = []
    for id in ids:
        d = os.path.join(V, id)
        prop = json.load(open(d + "/meta.json"))["property"]
        st = {}
        try:
            r = sh("git -C /repo apply %s/patch.diff" % d); assert r.returncode == 0, r.stdout
            r = sh("bash /opt/vp/build.sh"); st["build"] = r.returncode == 0
            if not st["build"]: print(r.stdout[-1500:])
            else:
                sh("bash /opt/vp/test.sh /tmp/st.json"); miss = base - set(json.load(open("/tmp/st.json"))["passed"])
                st["tests"] = not miss
                if miss: print(id, "tests failed", sorted(miss)[:3])
                r = sh("bash %s/demo.sh" % d, cwd="/repo"); st["demo_patched"] = r.returncode
                print(id, "demo:", r.stdout.strip()[-300:])
                if check:
                    r = sh("bash /verif/checks/run.sh %s" % prop, cwd="/verif")
                    st["check"] = "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s " % prop in r.stdout else "missed rc=%d" % r.returncode
                    print(r.stdout[:300] if r.returncode == 1 else r.stdout[-600:])
        finally:
            clean()
        sh("bash /opt/vp/build.sh")
        r = sh("bash %s/demo.sh" % d, cwd="/repo"); st["demo_clean"] = r.returncode
        if r.returncode: print("CLEAN DEMO FAILS", r.stdout[-500:])
        res.append((id, prop, st))
    print("=====")
    for x in res: print(*x)

if __name__ == "__main__":
    if sys.argv[1] == "make":
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"))
    elif sys.argv[1] == "test":
        ids = sys.argv[2:]
        test([i for i in sorted(os.listdir(V)) if any(i == x or i.startswith(x) for x in ids)] if ids else sorted(os.listdir(V)))
