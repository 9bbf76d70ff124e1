"""Common machinery of the checks: building the code under test from /repo's
working tree, running TLC, validating recorded traces, writing evidence."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(VERIF, ".work"))
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.extra = [], [], {}
        self.assumptions = []
        self.quick = tier == "quick"

    def path(self, *p):
        return os.path.join(self.tmp, *p)

    def scale(self, q, t):
        return q if self.quick else t

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------------ build
    def build(self, name, harness, repo_srcs, flags=(), tsan=False, plain=(), link=(), defs=()):
        """Compile harness files (from /verif/harness) and repo sources (from
        /repo/src) into one driver.  tsan: instrument the code under test and the
        driver with access hooks (see vsched.cpp); plain: harness files that are
        never instrumented."""
        bdir = self.path("build-" + name)
        os.makedirs(bdir, exist_ok=True)
        gen = os.path.join(bdir, "gen", "src")
        base = ["g++", "-std=c++11", "-g", "-w", "-D_REENTRANT", "-DPFICOMMON_VERSION=\"verif\"",
                "-I" + os.path.join(REPO, "src"), "-I" + HARN, "-I" + os.path.join(HARN, "config", "x", "y")] + list(defs)
        inst = ["-O1", "-fsanitize=thread"] if tsan else list(flags)
        jobs, objs = [], []
        for f in repo_srcs:
            o = os.path.join(bdir, "r_" + f.replace("/", "_") + ".o")
            jobs.append(base + inst + ["-c", os.path.join(REPO, "src", f), "-o", o]); objs.append(o)
        for f in harness:
            o = os.path.join(bdir, "h_" + f + ".o")
            jobs.append(base + inst + ["-c", os.path.join(HARN, f), "-o", o]); objs.append(o)
        for f in plain:
            o = os.path.join(bdir, "p_" + f + ".o")
            jobs.append(base + ["-O1"] + ([] if tsan else [x for x in flags if not x.startswith("-O")]) +
                        ["-c", os.path.join(HARN, f), "-o", o]); objs.append(o)
        with ThreadPoolExecutor(NCPU) as ex:
            for cmd, r in zip(jobs, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs)):
                if r.returncode:
                    raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        exe = os.path.join(bdir, name)
        # plain objects first: their (uninstrumented) copies of shared templates are the ones linked
        objs = [o for o in objs if os.path.basename(o).startswith("p_")] + [o for o in objs if not os.path.basename(o).startswith("p_")]
        lk = ["g++"] + objs + ["-o", exe, "-rdynamic"] + ([] if tsan else list(flags)) + list(link) + ["-ldl", "-lpthread"]
        r = subprocess.run(lk, capture_output=True, text=True)
        if r.returncode and "undefined reference" in r.stderr:
            # code was moved to other files: offer every other library source as an archive
            lib = self._rest(bdir, base + inst, repo_srcs)
            lk = lk[:lk.index("-o")] + [lib] + lk[lk.index("-o"):]
            r = subprocess.run(lk, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (" ".join(lk), r.stderr[-4000:]))
        return exe

    def _rest(self, bdir, cmd, have):
        src = os.path.join(REPO, "src")
        todo = []
        for d, _, fs in os.walk(src):
            rel = os.path.relpath(d, src)
            if rel.startswith("database") or "mprpc" in rel:
                continue
            for f in fs:
                p = os.path.normpath(os.path.join(rel, f))
                if f.endswith(".cpp") and not f.endswith("_test.cpp") and "fcgi" not in f and p not in have:
                    todo.append(p)
        objs = []

        def one(p):
            o = os.path.join(bdir, "x_" + p.replace("/", "_") + ".o")
            r = subprocess.run(cmd + ["-c", os.path.join(src, p), "-o", o], capture_output=True, text=True)
            return o if r.returncode == 0 else None
        with ThreadPoolExecutor(NCPU) as ex:
            objs = [o for o in ex.map(one, sorted(todo)) if o]
        lib = os.path.join(bdir, "librest.a")
        subprocess.run(["ar", "rcs", lib] + objs, check=True, capture_output=True)
        return lib

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=NCPU, timeout=800, args=(), heap="6g", cwd=SPEC, dfs=False):
        md = tempfile.mkdtemp(prefix="md", dir=self.tmp)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.tmp]
        if dfs:
            cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
        cmd += ["-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md,
                "-workers", str(workers), "-config", cfg] + list(args) + [module]
        try:
            r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out: " + " ".join(cmd))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, out + r.stderr, gen, dist

    def model_check(self, module, cfg, min_states=2, **kw):
        """Exhaustive check of the design specification (independent of the code)."""
        rc, out, gen, dist = self.tlc(module, cfg, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model check of %s/%s failed (rc=%d):\n%s" % (module, cfg, rc, out[-3000:]))
        if dist < min_states:
            raise CheckError("model %s/%s explored only %d states" % (module, cfg, dist))
        self.states += dist
        self.transitions += gen
        self.log("TLC %s %s: %d states, %d transitions" % (module, cfg, dist, gen))
        return out

    def _accept(self, module, cfg, lines, timeout=800):
        f = self.path("tr-%d.ndjson" % (time.time_ns()))
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        rc, out, gen, dist = self.tlc(module, cfg, env={"TRACE": f}, timeout=timeout)
        os.unlink(f)
        ok = set(int(x) for x in re.findall(r'<<"OK", (\d+)>>', out))
        clean = rc == 0 and "No error has been found" in out
        return clean, ok, out, gen, dist

    def validate(self, module, cfg, lines, label="", what="history"):
        """Every line (one trace each) must be a behaviour of the specification."""
        lines = [x for x in lines if x.strip()]
        if not lines:
            raise CheckError("no traces recorded for " + module)
        bad = []

        def rec(idx):
            clean, ok, out, gen, dist = self._accept(module, cfg, [lines[i] for i in idx])
            if clean:
                self.states += dist
                self.transitions += gen
                self.traces += len(ok)
                bad.extend((i, None) for k, i in enumerate(idx) if k + 1 not in ok)
                return
            if len(idx) == 1:
                bad.append((idx[0], out)); return
            if len(bad) > 5:
                return
            # evaluation error: unexpected data in some trace; narrow down
            h = len(idx) // 2
            rec(idx[:h]); rec(idx[h:])

        rec(list(range(len(lines))))
        self.log("validated %d %s traces against %s (%d rejected)" % (len(lines), label, module, len(bad)))
        if len(self.samples) < 6:
            self.samples.append({"kind": label, "trace": lines[len(lines) // 2][:700]})
        if bad:
            # report only what a re-run repeats
            again = []
            for i, _ in bad[:5]:
                clean, ok, out, _, _ = self._accept(module, cfg, [lines[i]])
                if not (clean and 1 in ok):
                    again.append((i, clean, out))
            if not again:
                raise CheckError("rejection not repeatable")
            i, clean, out = again[0]
            tr = json.loads(lines[i])
            at = self.where(module, cfg, lines[i])
            raise Violation("%s: %s %s not allowed by specification %s" % (label, what, i, module),
                            {"module": module, "cfg": cfg, "label": label, "trace": tr,
                             "matched_prefix": at, "rejected_event": tr[at] if at is not None and at < len(tr) else None,
                             "tlc_tail": "" if clean else out[-1500:], "rejected_total": len(bad)})

    def where(self, module, cfg, line):
        """Length of the longest prefix of the trace the specification explains."""
        tr = json.loads(line)
        lo, hi = 1, len(tr)
        # binary search over prefixes, each closed by nothing: 'OK' is printed when the prefix is consumed
        while lo < hi:
            mid = (lo + hi + 1) // 2
            clean, ok, _, _, _ = self._accept(module, cfg, [json.dumps(tr[:mid])])
            if clean and 1 in ok:
                lo = mid
            else:
                hi = mid - 1
        return lo

    # ---------------------------------------------------------------- drivers
    def drive_conc(self, exe, args, timeout=600):
        """Run a scheduler driver; returns the list of histories (JSON lines)."""
        try:
            r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("driver did not finish in %d s" % timeout)
        lines = [x for x in r.stdout.split("\n") if x.startswith("[")]
        if r.returncode == 71:
            self.log("driver crashed:", r.stderr.strip()[-200:])
            try:
                json.loads(lines[-1])
            except Exception:
                hdr = (lines[0] if lines else '[{"k":"hdr","n":0,"strict":0}').split("}")[0] + "}"
                lines = lines[:-1] + [hdr + ',{"k":"crash","t":0}]']
            return lines
        if r.returncode != 0:
            raise CheckError("driver failed rc=%d %s" % (r.returncode, r.stderr[-800:]))
        m = re.search(r"STATS (\{.*\})", r.stderr)
        if m:
            for k, v in json.loads(m.group(1)).items():
                self.extra[k] = self.extra.get(k, 0) + v
        return lines

    def drive_seq(self, exe, cases, env=None, per_case_s=20, batch_timeout=600, args=()):
        """Run a sequential driver over cases (each a list of command strings).
        The driver prints one JSON array per case.  A crash or hang becomes a
        final {"op":"crash"|"hang"} event of its case."""
        f = self.path("cases-%d.txt" % time.time_ns())
        with open(f, "w") as h:
            for c in cases:
                h.write("\n".join(c) + "\n.\n")
        out, start = [], 0
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0",
                 UBSAN_OPTIONS="print_stacktrace=0", VERIF_SCRATCH=self.tmp)
        e.update(env or {})
        restarts = killed = 0
        while start < len(cases):
            try:
                r = subprocess.run([exe, f, str(start), str(per_case_s if restarts else max(per_case_s, 60))] + list(args), capture_output=True, env=e, timeout=batch_timeout)
                so, rc, se = r.stdout, r.returncode, r.stderr
            except subprocess.TimeoutExpired as ex:
                raise CheckError("driver %s timed out" % exe)
            lines = [x for x in so.decode("latin-1").split("\n") if x.startswith("[")]
            out += lines
            start += len(lines)
            if rc == 0 and start >= len(cases):
                break
            if rc in (71, 72):
                restarts += 1
                if restarts == 1:
                    m = re.search(r"SUMMARY: .*", se.decode("latin-1"))
                    self.log("driver crash/hang in case %d: %s" % (start - 1, m.group(0)[:200] if m else se.decode("latin-1")[-150:]))
                if restarts > 8:
                    break
                continue
            if rc < 0 and not lines:          # killed (memory) twice in a row on the same case
                killed += 1
                if killed >= 2:
                    out.append('[{"op":"crash","a":[],"x":0,"r":[]}]'); start += 1; killed = 0; restarts += 1
                if restarts > 3: break
                continue
            if rc < 0:
                killed = 0; continue
            raise CheckError("driver rc=%d: %s" % (rc, se.decode("latin-1")[-800:]))
        os.unlink(f)
        return out

    # --------------------------------------------------------------- evidence
    def evidence(self, level, violations=0):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.extra)
        d = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
             "coverage": cov, "assumptions": self.assumptions,
             "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as h:
            json.dump(d, h, indent=1)
            h.write("\n")

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def hexs(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() if b else "-"


def main(prop, run, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    rc = 0
    try:
        run(ctx)
        ctx.evidence(level)
        ctx.log("held: %d states, %d transitions, %d traces" % (ctx.states, ctx.transitions, ctx.traces))
    except Violation as v:
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as h:
            json.dump({"property": prop, "seed": seed, "tier": tier, "what": v.what, "detail": v.detail}, h, indent=1)
            h.write("\n")
        ctx.samples.append({"kind": "violation", "what": v.what})
        ctx.evidence(level, violations=1)
        print("violation: " + v.what)
        d = v.detail
        if isinstance(d, dict) and d.get("rejected_event") is not None:
            print("  first event the specification cannot explain (after %s matched): %s" % (d.get("matched_prefix"), json.dumps(d["rejected_event"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rp), flush=True)
        rc = 1
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), flush=True)
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)
