"""Shared machinery: run Jython drivers on /repo, run TLC, collect verdicts, write evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, threading, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def sub_env(**kw):
    env = dict(os.environ)
    for k in ("PYTHONPATH", "JYTHONPATH", "CLASSPATH", "JAVA_TOOL_OPTIONS"):
        env.pop(k, None)
    env.update(LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.update(kw)
    return env


# ---------------------------------------------------------------- Jython side
STALL = 150          # seconds without a finished session before the run counts as hung


def _die_with_parent():
    try:
        import ctypes
        ctypes.CDLL("libc.so.6").prctl(1, 9)      # PR_SET_PDEATHSIG
    except Exception:       # noqa
        pass


def run_driver(driver, sessions, work, nproc=None, extra=None, tag=""):
    """Executes the sessions on the real code. Returns the list of recorded sessions (same order):
    each is the input session with "events" replaced by the recorded ones.  A session during which the code
    under test hangs is recorded with a single event {"op": "HANG"}."""
    n = len(sessions)
    if n == 0:
        return []
    nproc = nproc or min(6, max(1, n // 4))
    srcs = set(os.path.join(REPO, "src", d) for d in ("pycalendar", "zonal"))
    for s in srcs:       # stale compiled classes would shadow the sources
        for dp, dn, fn in os.walk(s):
            for f in fn:
                if f.endswith("$py.class"):
                    os.unlink(os.path.join(dp, f))
    shards = [[] for _ in range(nproc)]
    order = list(range(n))
    for k, i in enumerate(order):
        shards[k % nproc].append(i)
    results = [None] * n
    procs = []
    for k, shard in enumerate(shards):
        if shard:
            procs.append(_Shard(driver, [(i, sessions[i]) for i in shard], work, "%s%d" % (tag, k), extra))
    for p in procs:
        p.start()
    for p in procs:
        p.join()
        if p.error:
            raise MachineryError(p.error)
        for i, rec in p.results.items():
            results[i] = rec
    if any(r is None for r in results):
        raise MachineryError("driver left sessions without a record")
    return results


class _Shard(threading.Thread):
    def __init__(self, driver, items, work, tag, extra):
        threading.Thread.__init__(self)
        self.driver, self.items, self.work, self.tag, self.extra = driver, items, work, tag, extra
        self.results, self.error = {}, None

    def run(self):
        try:
            todo = self.items
            attempt = 0
            while todo:
                attempt += 1
                left = self._once(todo, attempt)
                if left is None:
                    return
                todo = left
                if attempt > 5:
                    # the code hangs or dies everywhere: the rest is recorded as such
                    for i, s in todo:
                        self.results[i] = dict(s, events=[{"op": "HANG", "why": "not run after repeated hangs"}])
                    return
        except Exception as e:     # noqa
            self.error = "%s: %s" % (type(e).__name__, e)

    def _once(self, todo, attempt):
        inp = os.path.join(self.work, "in_%s_%d.jsonl" % (self.tag, attempt))
        out = os.path.join(self.work, "out_%s_%d.jsonl" % (self.tag, attempt))
        log = os.path.join(self.work, "log_%s_%d" % (self.tag, attempt))
        with open(inp, "w") as f:
            for i, s in todo:
                f.write(json.dumps([i, s]) + "\n")
        open(out, "w").close()
        cmd = ["java", "-Xmx1500m", "-Xss8m", "-XX:+UseSerialGC", "-jar", "/usr/share/java/jython.jar",
               "-Dpython.home=/usr", "-Dpython.executable=/usr/bin/jython", "-B",
               os.path.join(VERIF, "drivers", "run.py"), self.driver, inp, out, os.path.join(REPO, "src")]
        env = sub_env(VERIF_WORK=self.work, **(self.extra or {}))
        with open(log, "w") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=self.work, start_new_session=True, preexec_fn=_die_with_parent)
        last, lastsize, hung = time.time(), 0, False
        while True:
            try:
                p.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                sz = os.path.getsize(out)
                if sz != lastsize:
                    last, lastsize = time.time(), sz
                elif time.time() - last > (STALL if attempt == 1 else 30):
                    hung = True
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        pass
                    p.wait()
                    break
        done = set()
        with open(out) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                i, rec = json.loads(line)
                self.results[i] = rec
                done.add(i)
        left = [(i, s) for i, s in todo if i not in done]
        if not left:
            return None
        tailtxt = open(log, errors="replace").read()[-3000:]
        if "DRIVER-MACHINERY-ERROR" in tailtxt:
            raise MachineryError("driver failed:\n" + tailtxt)
        if not hung and p.returncode not in (0, 77) and not os.path.exists(out + ".started"):
            raise MachineryError("driver did not start (rc %s):\n%s" % (p.returncode, tailtxt))
        # the first unfinished session is the culprit (hang, or the JVM died in it)
        i, s = left[0]
        self.results[i] = dict(s, events=[{"op": "HANG", "why": "hang" if hung else "runtime died rc=%s" % p.returncode}])
        return left[1:] or None


# ------------------------------------------------------------------- TLC side
def tlc(module, cfg=None, work=None, env=None, args=(), workers=None, timeout=840, heap="6g"):
    """Runs TLC in a private metadir; returns (rc, output)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=work)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or NCPU), "-lncheck", "final"]
    if cfg:
        cmd += ["-config", cfg]
    cmd += list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=sub_env(**(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, errors="replace", universal_newlines=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -9, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def tlc_stats(out):
    """(generated, distinct) of a TLC run"""
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"number of states generated: ([\d,]+)", out)
    if m:
        n = int(m[-1].replace(",", ""))
        return n, n
    return 0, 0


def model_check(module, cfg, work, env=None, args=(), timeout=800, workers=None, heap="6g"):
    """Exhaustive (or -simulate) run of a specification by itself.  Anything but success is a machinery error:
    the specification does not depend on /repo."""
    rc, out = tlc(module, cfg, work, env, args, timeout=timeout, workers=workers, heap=heap)
    ok = rc == 0 and ("Model checking completed. No error has been found" in out or "-simulate" in args)
    if not ok:
        raise MachineryError("model checking of %s (%s) failed rc=%s\n%s" % (module, cfg, rc, out[-4000:]))
    g, d = tlc_stats(out)
    return {"module": module, "config": cfg, "generated": g, "distinct": d}


def validate(module, recs, work, env=None, timeout=800, cfg=None, heap="8g", nchunks=1):
    """Checks recorded sessions against a trace specification. Returns (bads, stats)."""
    trace = os.path.join(work, module + ".trace.json")
    out = os.path.join(work, module + ".verdict")
    with open(trace, "w") as f:
        json.dump(recs, f)
    if os.path.exists(out):
        os.unlink(out)
    e = dict(env or {}, TRACE=trace, OUT=out)
    rc, txt = tlc(module + ".tla", cfg or module + ".cfg", work, e, timeout=timeout, heap=heap)
    lines = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            l = l.strip()
            if l:
                v = json.loads(l)
                lines.append(json.loads(v) if isinstance(v, str) else v)
    bads = [l for l in lines if l["k"] == "bad"]
    fins = {}
    for l in lines:
        if l["k"] in ("done", "stop"):
            fins.setdefault(l["sid"], []).append(l["k"])
    g, d = tlc_stats(txt)
    stats = {"module": module, "generated": g, "distinct": d}
    if rc != 0:
        m = re.search(r"(Error: (?!.*java\.lang\.OutOfMemory).*?)(?:\n\n|\Z)", txt, re.S)
        if rc == -9 or "OutOfMemory" in txt or "Parsing or semantic analysis failed" in txt or "Unknown" in txt or not recs:
            raise MachineryError("TLC failed on %s rc=%s\n%s" % (module, rc, txt[-4000:]))
        # An evaluation error: the record lies outside what the specification can even interpret.
        sid = None
        mm = re.findall(r"hsid = (\d+)", txt)
        ii = re.findall(r"hidx = (\d+)", txt)
        if mm:
            sid = int(mm[-1])
        bads.append({"k": "bad", "sid": sid or 0, "i": int(ii[-1]) if ii else 0, "clause": "uninterpretable-record",
                     "exp": (m.group(1)[:700] if m else "") + " ... " + txt[-700:]})
        return bads, stats, len([s for s in fins if fins[s] == ["done"]])
    missing = [s for s in range(1, len(recs) + 1) if len(fins.get(s, [])) != 1]
    if missing:
        raise MachineryError("sessions without a verdict: %s\n%s" % (missing[:5], txt[-2000:]))
    badsids = set(b["sid"] for b in bads)
    okn = len([s for s in fins if s not in badsids])
    return bads, stats, okn


# ------------------------------------------------------------------ behaviours
def behaviours(module, cfg, work, num, depth, seed, env=None, timeout=300, workers=1):
    """Generates behaviours with TLC -simulate: the module writes each finished behaviour (JSON) to IOEnv.OUT."""
    out = os.path.join(work, os.path.splitext(cfg)[0] + ".beh")
    if os.path.exists(out):
        os.unlink(out)
    e = dict(env or {}, OUT=out)
    rc, txt = tlc(module, cfg, work, e, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                  timeout=timeout, workers=workers)
    if rc != 0 and not os.path.exists(out):
        raise MachineryError("behaviour generation failed: %s rc=%s\n%s" % (module, rc, txt[-3000:]))
    if rc != 0:
        raise MachineryError("behaviour generation failed: %s rc=%s\n%s" % (module, rc, txt[-3000:]))
    seen, res = set(), []
    for l in open(out):
        l = l.strip()
        if l and l not in seen:
            seen.add(l)
            v = json.loads(l)
            res.append(json.loads(v) if isinstance(v, str) else v)
    return res, tlc_stats(txt)


# -------------------------------------------------------------------- verdicts
def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))["findings"]


class Run(object):
    """One check run: collects evidence and verdicts."""

    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.violations, self.known = [], {}
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.samples, self.info = [], {}
        self.findings = [f for f in known_findings() if f["property"] == prop and f.get("status") == "open"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def mc(self, module, cfg, **kw):
        t = time.time()
        r = model_check(module, cfg, self.work, **kw)
        r["wall_s"] = round(time.time() - t, 1)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.info.setdefault("model_checked", []).append(r)
        return r

    def gen(self, module, cfg, num, depth, **kw):
        beh, (g, d) = behaviours(module, cfg, self.work, num, depth, self.seed, **kw)
        self.transitions += g
        self.info.setdefault("generated_behaviours", []).append({"module": module, "config": cfg, "behaviours": len(beh), "states": g})
        return beh

    def drive(self, driver, sessions, **kw):
        t = time.time()
        try:
            return run_driver(driver, sessions, self.work, **kw)
        finally:
            self.info.setdefault("driven", []).append({"driver": driver, "sessions": len(sessions), "wall_s": round(time.time() - t, 1)})

    def validate(self, module, recs, describe=None, **kw):
        hang = [(i, r) for i, r in enumerate(recs) if any(e.get("op") == "HANG" for e in r["events"])]
        for i, r in hang:
            self.report("no-answer", r, 0, r["events"][0], "the call must return")
        recs = [r for r in recs if not any(e.get("op") == "HANG" for e in r["events"])]
        if not recs:
            return
        t = time.time()
        bads, stats, okn = validate(module, recs, self.work, **kw)
        stats["wall_s"] = round(time.time() - t, 1)
        self.states += stats["distinct"]
        self.transitions += stats["generated"]
        self.traces += okn
        self.events += sum(len(r["events"]) for r in recs)
        self.info.setdefault("validated", []).append(dict(stats, sessions=len(recs)))
        for r in recs[:: max(1, len(recs) // 3)][:3]:
            self.samples.append({"session": r.get("id"), "init": _clip(r.get("init")), "events": [_clip(e) for e in r["events"][:4]]})
        for b in bads:
            r = recs[b["sid"] - 1] if b["sid"] else {"id": "?", "events": []}
            ev = r["events"][b["i"] - 1] if b["i"] and b["i"] <= len(r["events"]) else {}
            self.report(b["clause"], r, b["i"], ev, b["exp"])

    def report(self, clause, rec, i, ev, exp):
        key = {"clause": clause, "event": ev, "session": rec.get("id"), "init": rec.get("init")}
        for f in self.findings:
            if _matches(f, key, rec):
                self.known.setdefault(f["id"], [f, 0])[1] += 1
                return
        self.violations.append({"clause": clause, "session": rec, "event_index": i, "event": ev, "expected": exp})

    def finish(self, extra=None):
        wall = time.time() - self.t0
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_checked": self.events, "samples": self.samples[:6] or ["none"]}
        cov.update(self.info)
        if extra:
            cov.update(extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for fid, (f, n) in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s %s (%s; %d events)" % (self.prop, f["what"], fid, n))
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s_%s.json" % (self.prop, self.tier))
            with open(path, "w") as f:
                json.dump(self.violations[:40], f, indent=1)
            for v in self.violations[:5]:
                print("  clause=%s session=%s event=%s\n     spec says: %s" % (
                    v["clause"], v["session"].get("id"), json.dumps(_clip(v["event"]))[:700], json.dumps(v["expected"])[:500]))
            print("%d violations, clauses: %s" % (len(self.violations), sorted(set(v["clause"] for v in self.violations))))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s: %d sessions / %d events conform; %d states, %d transitions; %.1fs" % (
            self.prop, self.tier, self.traces, self.events, self.states, self.transitions, wall))
        return 0


def _clip(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def _matches(f, key, rec):
    """A finding names the clause and a sub-record of the event (and optionally of the session's init)."""
    if f["clause"] != key["clause"]:
        return False
    m = f.get("match", {})
    for k, v in m.get("event", {}).items():
        if key["event"].get(k) != v:
            return False
    for k, v in m.get("init", {}).items():
        if not isinstance(key["init"], dict) or key["init"].get(k) != v:
            return False
    return bool(m)
