"""Shared machinery of the checks: TLC runs, harness runs, evidence, verdicts."""
import os, re, sys, json, time, random, shutil, hashlib, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class CheckError(Exception):
    """The machinery failed (never a verdict)."""

class TLCResult:
    def __init__(self):
        self.ok = False; self.violated = None; self.states = 0; self.distinct = 0
        self.out = ""; self.trace_vars = {}; self.prints = []

def _tlc_cmd(module, cfg, meta, workers, extra, heap):
    return (["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
             "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
             "-config", cfg] + list(extra) + [module])

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.unconfirmed = 0
        self.known = []
        self.known_hit = []
        self.work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=self._mk(os.path.join(VERIF, "build", "run")))
        self.replaydir = self._mk(os.path.join(VERIF, "build", "replay"))
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == prop]

    def _mk(self, d):
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        sys.stderr.write("[%s %6.1fs] %s\n" % (self.prop, time.time() - self.t0, " ".join(str(x) for x in a)))
        sys.stderr.flush()

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, env=None, workers=None, extra=(), heap="6g", timeout=800, name=None):
        """Run TLC on spec/<module>.tla with the given cfg text."""
        name = name or module
        d = tempfile.mkdtemp(prefix="tlc-%s-" % name, dir=self.work)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfg = os.path.join(d, "run.cfg")
        open(cfg, "w").write(cfg_text)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        r = TLCResult()
        try:
            p = subprocess.run(_tlc_cmd(module + ".tla", cfg, os.path.join(d, "meta"), workers or NCPU, extra, heap),
                               cwd=d, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC on %s exceeded %ds" % (name, timeout))
        r.out = p.stdout + p.stderr
        m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", r.out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        r.ok = p.returncode == 0 and "No error has been found" in r.out
        mm = re.search(r"Error: Invariant (\S+) is violated", r.out) or \
            re.search(r"Error: Action property (\S+) is violated", r.out) or \
            re.search(r"Error: (Temporal properties) were violated", r.out) or re.search(r"Error: Temporal property (\S+) was violated", r.out) or \
            re.search(r"Error: (Deadlock) reached", r.out) or \
            re.search(r"(?:Error: )?The postcondition (\S+) is violated|Error: Post(condition)", r.out)
        if mm:
            r.violated = next((g for g in mm.groups() if g), "violation")
        r.prints = re.findall(r'^"?@@(.*?)"?$', r.out, re.M)
        # last printed state of an error trace
        if r.violated:
            sts = re.split(r"^State \d+:.*$", r.out, flags=re.M)
            last = sts[-1] if len(sts) > 1 else r.out
            for mm in re.finditer(r"^/\\ (\w+) = (.*(?:\n(?!/\\|\n).*)*)", last, re.M):
                r.trace_vars[mm.group(1)] = mm.group(2).strip()
            if not r.trace_vars:
                for mm in re.finditer(r"^(\w+) = (.*)$", last, re.M):
                    r.trace_vars[mm.group(1)] = mm.group(2).strip()
        if not r.ok and not r.violated:
            raise CheckError("TLC failed on %s:\n%s" % (name, r.out[-3500:]))
        shutil.rmtree(d, ignore_errors=True)
        return r

    def model_check(self, module, cfg_text, env=None, name=None, workers=None, extra=(), timeout=800, heap="6g"):
        """Design-level check of the specification itself; must pass (it does not read /repo)."""
        r = self.tlc(module, cfg_text, env=env, workers=workers, extra=extra, timeout=timeout, name=name, heap=heap)
        if not r.ok:
            raise CheckError("specification %s violates %s:\n%s" % (name or module, r.violated, r.out[-3500:]))
        self.states += r.distinct
        self.transitions += r.states
        self.cov.setdefault("design_models", []).append({"model": name or module, "distinct_states": r.distinct, "states_generated": r.states})
        self.log("model", name or module, r.states, "states", r.distinct, "distinct")
        return r

    def generate(self, module, cfg_text, env=None, name=None, workers=1, timeout=800, extra=()):
        """Let TLC enumerate behaviours/inputs of the specification; the spec writes them
        with PrintT("@@" \\o ToJson(x))."""
        r = self.tlc(module, cfg_text, env=env, workers=workers, timeout=timeout, name=name, extra=extra)
        if not r.ok:
            raise CheckError("generator %s failed: %s" % (name or module, r.out[-2000:]))
        self.states += r.distinct
        self.transitions += r.states
        out = [json.loads(s.replace('\\"', '"').replace("\\\\", "\\")) for s in r.prints]
        self.cov.setdefault("generated_by_tlc", []).append({"model": name or module, "cases": len(out), "distinct_states": r.distinct})
        self.log("generated", len(out), "cases with", name or module)
        return out

    def validate(self, module, records, cfg_text, env=None, name=None, confirm=None, what=None,
                 workers=None, timeout=800, expect_states=None, max_report=1, heap="6g", corrupt=None):
        """Check recorded executions against the specification.  The trace module enumerates
        the records (variable l is the 1-based index) and its invariants must hold.
        confirm(record) -> fresh record re-runs the case on the real code."""
        if not records:
            return
        name = name or module
        todo = list(records)
        rounds = 0
        total = 0
        while todo:
            path = os.path.join(self.work, "trace-%s-%d.ndjson" % (name, rounds))
            with open(path, "w") as f:
                for rec in todo:
                    f.write(json.dumps(rec) + "\n")
            en = dict(env or {}); en["TRACE"] = path
            r = self.tlc(module, cfg_text, env=en, workers=workers, timeout=timeout, name=name, heap=heap)
            self.states += r.distinct
            self.transitions += r.states
            total = max(total, r.distinct)
            if r.ok:
                if expect_states is not None and not expect_states(len(todo), r.distinct):
                    raise CheckError("trace validation of %s visited %d states for %d records" % (name, r.distinct, len(todo)))
                self.traces += len(todo)
                break
            m = re.match(r"(\d+)", r.trace_vars.get("l", ""))
            if not m:
                raise CheckError("rejected trace without index:\n" + r.out[-3000:])
            idx = int(m.group(1)) - 1
            bad = todo[idx]
            again = bad
            if confirm is not None:
                okays = 0
                for attempt in range(3):
                    again = confirm(bad)
                    p2 = os.path.join(self.work, "confirm-%s.ndjson" % name)
                    open(p2, "w").write(json.dumps(again) + "\n")
                    en2 = dict(en); en2["TRACE"] = p2
                    r2 = self.tlc(module, cfg_text, env=en2, workers=1, timeout=timeout, name=name, heap=heap)
                    if not r2.ok:
                        break
                    okays += 1
                if okays == 3:
                    self.unconfirmed += 1
                    self.log("rejection did not repeat:", json.dumps(bad)[:1500])
                    if self.unconfirmed > 5:
                        raise CheckError("too many rejections that do not repeat")
                    todo = todo[:idx] + todo[idx + 1:]
                    continue
            self.violation(again, "%s rejects (%s)" % (name, r.violated), tlc=r.out[-6000:])
            rounds += 1
            if rounds >= max_report:
                break
            todo = todo[:idx] + todo[idx + 1:]
        if corrupt is not None and not self.violations:
            # negative control: the specification must reject a falsified record
            for bad in corrupt(self.rng, records):
                p3 = os.path.join(self.work, "control-%s.ndjson" % name)
                open(p3, "w").write(json.dumps(bad) + "\n")
                en3 = dict(env or {}); en3["TRACE"] = p3
                r3 = self.tlc(module, cfg_text, env=en3, workers=1, timeout=timeout, name=name, heap=heap)
                if r3.ok:
                    raise CheckError("%s accepts a falsified record: %s" % (name, json.dumps(bad)[:1500]))
                self.cov["falsified_records_rejected"] = self.cov.get("falsified_records_rejected", 0) + 1
        self.cov.setdefault("validated", []).append({"spec": name, "records": len(records), "distinct_states": total})
        self.log("validated", len(records), "records with", name, "" if not self.violations else "VIOLATIONS %d" % len(self.violations))

    # ------------------------------------------------------------ verdicts
    def violation(self, case, why, tlc=None):
        rid = hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]
        path = os.path.join(self.replaydir, "%s-%s.json" % (self.prop, rid))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "why": why, "case": case, "seed": self.seed, "tier": self.tier,
                       "tlc": tlc}, f, indent=1, default=str)
        self.violations.append((path, why))
        self.log("VIOLATION:", why, json.dumps(case, default=str)[:600])

    def known_finding(self, fid, what):
        self.known_hit.append((fid, what))

    def sample(self, x, n=3):
        if len(self.samples) < n:
            s = json.dumps(x, default=str)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def evidence(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov), "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        c = ev["coverage"]
        c["states"] = self.states; c["transitions"] = self.transitions
        c["traces_validated_against_impl"] = self.traces
        c["samples"] = self.samples or ["none"]
        d = self._mk(os.path.join(VERIF, "evidence"))
        p = os.path.join(d, self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(p + ".tmp", p)

    def finish(self):
        self.evidence()
        shutil.rmtree(self.work, ignore_errors=True)
        for fid, what in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if self.violations:
            for p, why in self.violations:
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("  " + why)
            sys.stdout.flush()
            return 1
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.tier, self.states, self.traces, time.time() - self.t0))
        return 0

def main(prop, fn, level="model_checking"):
    ck = Check(prop, level)
    try:
        fn(ck)
        rc = ck.finish()
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.stderr.write("[%s] the check itself failed: %s\n" % (prop, e))
        shutil.rmtree(ck.work, ignore_errors=True)
        if ck.violations:      # verdicts reached before the failure stand
            ck.evidence()
            for p, why in ck.violations:
                print("VIOLATION property=%s replay=%s" % (ck.prop, p))
            sys.exit(1)
        sys.exit(2)
    sys.exit(rc)

# ------------------------------------------------------------------ harness
def run_harness(cmd, cases, shards=None, case_timeout=20, env=None, cwd=None, batch_timeout=600):
    """Feed JSON cases (one per line) to `cmd`, one JSON reply line per case.  A case on which the
    process dies or hangs yields {"crash": <reason>}; the process is restarted after it."""
    shards = shards or min(NCPU, max(1, len(cases) // 20))
    parts = [list(range(s, len(cases), shards)) for s in range(shards)]
    res = [None] * len(cases)
    def work(idx):
        i = 0
        while i < len(idx):
            chunk = idx[i:]
            e = dict(os.environ); e.update(env or {})
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                 env=e, cwd=cwd, start_new_session=True)
            def feed():
                try:
                    for k in chunk:
                        p.stdin.write((json.dumps(cases[k]) + "\n").encode())
                    p.stdin.close()
                except (BrokenPipeError, ValueError, OSError):
                    pass
            th = threading.Thread(target=feed, daemon=True); th.start()
            timed = [False]
            last = [time.time()]
            stop = threading.Event()
            def watch():
                while not stop.wait(0.25):
                    if time.time() - last[0] > case_timeout:
                        timed[0] = True
                        try: os.killpg(p.pid, 9)
                        except OSError: pass
                        return
            wt = threading.Thread(target=watch, daemon=True); wt.start()
            n = 0
            for line in p.stdout:
                line = line.strip()
                if not line.startswith(b"{"):
                    continue
                try:
                    res[chunk[n]] = json.loads(line)
                except ValueError:
                    res[chunk[n]] = {"crash": "bad output"}
                n += 1
                last[0] = time.time()
                if n == len(chunk):
                    break
            stop.set()
            try: p.stdout.close()
            except OSError: pass
            if n < len(chunk):
                p.wait()
                res[chunk[n]] = {"crash": "timeout" if timed[0] else "exit %d" % p.returncode}
                n += 1
            else:
                try: p.wait(timeout=20)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9); p.wait()
            th.join(timeout=5)
            i += n
    with ThreadPoolExecutor(max_workers=shards) as ex:
        list(ex.map(work, [p for p in parts if p]))
    return res
