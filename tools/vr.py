#!/usr/bin/env python3
"""vr.py REPLAY: run a replay's script again and show TLC's own output on the trace."""
import sys, re
sys.path.insert(0, "/verif/lib")
import core
t = open(sys.argv[1]).read()
exe = re.search(r"\(run: (\S+)", t).group(1); mod = re.search(r"trace specification (\w+)", t).group(1)
seg = [l for l in t.split("\n") if l and not l.startswith("#")]
c = core.Check("VR", "x")
L = c.harness(exe, seg, "a")
for l in L[-int(sys.argv[2]) if len(sys.argv) > 2 else 0:]: print(l[:300])
open("/tmp/vr.ndjson", "w").write("\n".join(L) + "\n")
print("\n".join(c.tlc(mod, env={"TRACE": "/tmp/vr.ndjson"}).out[:6000].split("\n")[5:]))
