"""Shared driver: run TLC on a design, run a harness on scripts, let TLC judge the recorded
traces, confirm rejections, write evidence, print the verdict."""
import os, sys, json, resource, re, subprocess, time, random, shutil, tempfile, hashlib, traceback, signal
from concurrent.futures import ThreadPoolExecutor
import vbuild

VERIF = vbuild.VERIF
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery failed (not the code under test): exit 2, no verdict."""


def run_proc(cmd, timeout, env=None, cwd=None, stdin=None, fsize=None):
    """Runs cmd in its own process group; kills the group on timeout. -> (rc|None, output)"""
    def limits():
        if fsize:
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         stdin=stdin or subprocess.DEVNULL, start_new_session=True, preexec_fn=limits)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        rc = None
    return rc, out.decode("utf-8", "replace")


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = rc == 0 and "No error has been found" in out
        self.post_failed = rc == 10 and "ostcondition" in out


class Check:
    def __init__(self, prop, title, level="model_checking", assumptions=(), tier=None, seed=None):
        self.prop, self.title, self.level = prop, title, level
        self.assumptions = list(assumptions)
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "events_validated": 0, "behaviours_generated_by_tlc": 0, "design_models": [],
                    "events_by_kind": {}, "samples": []}
        self.hung = False
        self.violations = []      # (replay path, text)
        self.known_hits = []
        self.tmp = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
        self.replays = os.path.join(VERIF, "replays", prop)
        self.known = [k for k in load_known() if k["property"] == prop and k["status"] == "open"]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers="1", timeout=600, extra=(), heap="3g", dfs=False):
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        cfg = os.path.join(SPECS, (cfg or module) + ".cfg")
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m",
               "-Djava.io.tmpdir=" + meta]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", JARS, "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE",
                "-config", cfg] + list(extra) + [os.path.join(SPECS, module + ".tla")]
        rc, out = run_proc(cmd, timeout, env=e, cwd=SPECS)
        shutil.rmtree(meta, ignore_errors=True)
        return TlcResult(rc, out)

    def model(self, module, cfg=None, workers="4", timeout=150, expect_actions=(), env=None, extra=(), coverage=True):
        """Exhaustively checks a design. A design that fails is an error of the machinery: the
        specification is ours and does not depend on /repo."""
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=(("-coverage", "1") if coverage else ()) + tuple(extra))
        if not r.ok:
            raise ToolError("TLC on %s/%s: rc=%s\n%s" % (module, cfg, r.rc, r.out.split("The coverage statistics")[0][-3000:]))
        acts = {}
        for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", r.out, re.M):
            acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3)))
        for a in expect_actions:
            if not acts.get(a):
                raise ToolError("design %s: action %s never taken" % (module, a))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["design_models"].append({"module": module, "cfg": cfg or module, "distinct": r.distinct,
                                          "generated": r.generated, "depth": r.depth, "actions": acts})
        return r

    def behaviours(self, module, cfg=None, num=None, depth=None, env=None, timeout=300):
        """Behaviours printed by TLC itself (PrintT of a JSON history as one line @@...)."""
        extra = []
        if num:
            extra = ["-simulate", "num=%d" % num, "-depth", str(depth or 50), "-seed", str(self.seed)]
        r = self.tlc(module, cfg, env=env, workers="1", timeout=timeout, extra=extra)
        out = []
        for line in r.out.splitlines():
            if line.startswith('"@@'):
                s = json.loads(line)          # TLC prints a quoted string
                out.append(json.loads(s[2:]))
        if r.rc not in (0,) or not out:
            raise ToolError("behaviour generation %s: rc=%s\n%s" % (module, r.rc, r.out[-2000:]))
        self.cov["behaviours_generated_by_tlc"] += len(out)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        return out

    # ---------------------------------------------------------------- harness
    def build(self, harness, modules=(), flavour="asan", **kw):
        try:
            return vbuild.build(harness, modules, flavour, **kw)
        except RuntimeError as e:
            raise ToolError(str(e))

    def harness(self, exe, script_lines, name, timeout=120, args=(), env=None, cwd=None):
        """-> list of trace lines (JSON text). An abnormal end becomes a last event."""
        sp = os.path.join(self.tmp, name + ".script")
        tp = os.path.join(self.tmp, name + ".ndjson")
        with open(sp, "w") as f:
            f.write("\n".join(script_lines) + "\n")
        if os.path.exists(tp):
            os.remove(tp)
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:hard_rss_limit_mb=3500:max_allocation_size_mb=2000"
        e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_thread_leaks=0:die_after_fork=0"
        e.update(env or {})
        wd = tempfile.mkdtemp(prefix="wd_", dir=self.tmp) if cwd is None else cwd
        rc, out = run_proc([exe, sp, tp] + list(args), timeout, env=e, cwd=wd, fsize=1 << 28)
        if cwd is None:
            shutil.rmtree(wd, ignore_errors=True)
        lines = []
        if os.path.exists(tp):
            with open(tp, encoding="utf-8", errors="replace") as f:
                lines = [x for x in f.read(48 << 20).split("\n") if x]
                if f.read(1) and rc == 0:
                    raise ToolError("trace too large")
        if lines and rc != 0:
            try:
                json.loads(lines[-1])
            except ValueError:
                lines.pop()
        if rc is None:
            lines.append(json.dumps({"e": "hang", "detail": "no end within %d s" % timeout}))
        elif rc == 99:
            raise ToolError("harness %s: %s" % (exe, out[-2000:]))
        elif rc != 0:
            m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", out)
            lines.append(json.dumps({"e": "crash", "rc": rc, "detail": (m.group(1)[:200] if m else out[-300:])}))
            self.last_output = out
        for p in (sp,):
            pass
        return lines

    def validate(self, module, lines, name, timeout=600, cfg=None, env=None, dfs=False, heap="2g"):
        """-> (accepted, number of lines matched)"""
        tp = os.path.join(self.tmp, name + ".v.ndjson")
        with open(tp, "w") as f:
            f.write("\n".join(lines) + "\n")
        e = {"TRACE": tp}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, workers="1", timeout=timeout, dfs=dfs, heap=heap)
        if r.ok:
            os.remove(tp)
            self.cov["transitions"] += r.generated
            return True, len(lines)
        if r.post_failed:
            # traces of deterministic specs: one state per line; specs with silent steps print @@MATCHED
            m = re.findall(r"@@MATCHED (\d+)", r.out)
            return False, (int(m[-1]) if m else r.depth - 1)
        if r.rc in (75, 76) and "not completely specified" not in r.out and "up to this point" in r.out:
            # The specification has no meaning for what was recorded (an index or a value outside
            # every domain): no step explains it either.
            m = re.findall(r"^State (\d+):", r.out, re.M)
            n = re.findall(r"^(\d+): <", r.out, re.M)
            k = int((m or n)[-1]) if (m or n) else 1
            return False, min(k - 1, len(lines) - 1)
        raise ToolError("trace validation %s: rc=%s\n%s" % (module, r.rc, r.out[-3000:]))

    # ---------------------------------------------------------------- conformance
    def conform(self, tag, exe, segments, module, jobs=6, reset="reset", timeout=60, args=(), env=None,
                tlc_env=None, cfg=None, dfs=False, chunk=None, vtimeout=600, nondet=False, heap="2g"):
        """segments: list of lists of script lines; each segment begins with the reset command.
        The real code executes every one; TLC accepts or rejects what was recorded."""
        if not segments:
            return
        if self.violations and (self.hung or time.time() - self.t0 > 400):
            return  # the verdict stands; waiting for every hang would only cost time
        jobs = min(jobs, len(segments))
        weights = [0] * jobs
        bins = [[] for _ in range(jobs)]
        order = sorted(range(len(segments)), key=lambda i: -len(segments[i]))
        for i in order:
            b = weights.index(min(weights))
            bins[b].append(i)
            weights[b] += sum(len(x) for x in segments[i]) + 30 * len(segments[i])

        def one(b):
            idx = sorted(bins[b])
            todo = idx
            bad = []
            nval = 0
            while todo:
                script = [ln for i in todo for ln in segments[i]]
                lines = self.harness(exe, script, "%s_%d" % (tag, b), timeout=timeout, args=args, env=env)
                ok, matched = self.validate(module, lines, "%s_%d" % (tag, b), cfg=cfg, env=tlc_env,
                                            dfs=dfs, timeout=vtimeout, heap=heap)
                nval += 1
                self.count(lines[:matched])
                if ok:
                    self.cov["traces_validated_against_impl"] += len(todo)
                    return bad
                # which segment does the first unmatched line belong to?
                seg = -1
                for k, ln in enumerate(lines[:matched + 1]):
                    if '"e":"%s"' % reset in ln:
                        seg += 1
                seg = max(seg, 0)
                self.cov["traces_validated_against_impl"] += seg
                i = todo[seg]
                # this segment only
                starts = [k for k, ln in enumerate(lines) if '"e":"%s"' % reset in ln] or [0]
                b0 = starts[min(seg, len(starts) - 1)]
                b1 = next((k for k in starts if k > b0), len(lines))
                bad.append((i, lines[matched] if matched < len(lines) else "(end)", lines[b0:b1]))
                if len(bad) >= 2 or '"e": "hang"' in lines[-1]:
                    return bad
                todo = todo[seg + 1:]
            return bad

        with ThreadPoolExecutor(jobs) as ex:
            allbad = [x for r in ex.map(one, range(jobs)) for x in r]
        if len(self.cov["samples"]) < 6:
            s = segments[self.rng.randrange(len(segments))]
            self.cov["samples"].append({"script": s[:12], "harness": tag})
        hangs = [x for x in allbad if '"e": "hang"' in x[1]]
        self.hung = self.hung or bool(hangs)
        for (i, line, lines) in (hangs[:1] or allbad[:3]):
            self.confirm(tag, exe, segments[i], module, line, args, env, tlc_env, cfg, dfs, timeout,
                         lines if nondet else None)

    def confirm(self, tag, exe, seg, module, line, args, env, tlc_env, cfg, dfs, timeout, nondet_lines):
        if nondet_lines is not None:
            # a recorded concurrent execution cannot be re-run; the recorded trace itself is judged again
            ok, matched = self.validate(module, nondet_lines, tag + "_confirm", cfg=cfg, env=tlc_env, dfs=dfs)
            lines = nondet_lines
        else:
            lines = self.harness(exe, seg, tag + "_confirm", timeout=timeout, args=args, env=env)
            ok, matched = self.validate(module, lines, tag + "_confirm", cfg=cfg, env=tlc_env, dfs=dfs)
        if ok:
            raise ToolError("rejection of %s did not repeat: %s" % (tag, line[:300]))
        bad = lines[matched] if matched < len(lines) else "(end of trace)"
        os.makedirs(self.replays, exist_ok=True)
        h = hashlib.sha1("\n".join(seg).encode()).hexdigest()[:10]
        path = os.path.join(self.replays, "%s_%s.txt" % (tag, h))
        with open(path, "w") as f:
            f.write("# property %s, harness %s, trace specification %s\n" % (self.prop, tag, module))
            f.write("# first event that no step of the specification explains:\n#   %s\n" % bad[:2000])
            f.write("# matched %d of %d recorded events\n" % (matched, len(lines)))
            f.write("# --- script (run: %s <script> <trace.ndjson>)\n" % exe)
            f.write("\n".join(seg) + "\n# --- recorded trace\n")
            f.write("\n".join("# " + x[:2000] for x in lines) + "\n")
            if getattr(self, "last_output", None) and '"e": "crash"' in bad:
                f.write("# --- program output\n" + "\n".join("# " + x for x in self.last_output.splitlines()[:60]) + "\n")
        self.violations.append((path, bad))

    def count(self, lines):
        k = self.cov["events_by_kind"]
        for ln in lines:
            m = re.match(r'\{"e": ?"([^"]+)"', ln)
            if m:
                k[m.group(1)] = k.get(m.group(1), 0) + 1
        self.cov["events_validated"] += len(lines)

    def known_findings(self, tag, exe, module, **kw):
        """Each open finding names a script; it is executed on its own."""
        for k in self.known:
            if k.get("harness") != tag:
                continue
            lines = self.harness(exe, k["script"], tag + "_known", timeout=kw.get("timeout", 60),
                                 args=kw.get("args", ()), env=kw.get("env"))
            ok, matched = self.validate(module, lines, tag + "_known", cfg=kw.get("cfg"), env=kw.get("tlc_env"))
            if not ok:
                self.known_hits.append(k)

    def require_kinds(self, *kinds):
        if self.violations:
            return
        miss = [k for k in kinds if not self.cov["events_by_kind"].get(k)]
        if miss:
            raise ToolError("vacuous run: no event of kind %s" % miss)

    # ---------------------------------------------------------------- end
    def finish(self):
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        self.cov["samples"] = self.cov["samples"] or [{"note": "none"}]
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if self.violations:
            for path, bad in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  unexplained event: %s" % bad[:400])
            return 1
        print("OK property=%s tier=%s events=%d traces=%d design-states=%d wall=%.1fs" % (
            self.prop, self.tier, self.cov["events_validated"], self.cov["traces_validated_against_impl"],
            self.cov["states"], time.time() - self.t0))
        return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def hexs(b):
    return "x" + bytes(b).hex()


def main(prop, title, fn, **kw):
    chk = Check(prop, title, **kw)
    try:
        fn(chk)
        rc = chk.finish()
    except ToolError as e:
        # violations that were already confirmed stand
        if chk.violations:
            rc = chk.finish()
        else:
            print("ERROR property=%s (no verdict): %s" % (prop, e))
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 1 if chk.violations and chk.finish() == 1 else 2
    finally:
        shutil.rmtree(chk.tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc
