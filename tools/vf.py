"""Runs sessions of operations against the real code, has TLC judge the recorded traces by the
specification, and reports.  A session is a list of (operation, arguments); see spec/Gridpp.tla."""
import concurrent.futures, hashlib, json, math, os, random, re, shutil, struct, subprocess, sys, tempfile, time
import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
NAN = float("nan")

# ---- values --------------------------------------------------------------------------------------
def f32(x):
    """x rounded to single precision, so that what the driver reads is what the specification reads."""
    if isinstance(x, float) and (math.isnan(x) or math.isinf(x)):
        return x
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(float("inf"), x)

def dump(x):
    if x is True: return "true"
    if x is False: return "false"
    if x is None: return "null"
    if isinstance(x, int): return str(x)
    if isinstance(x, float):
        if math.isnan(x): return '"nan"'
        if math.isinf(x): return '"inf"' if x > 0 else '"-inf"'
        s = repr(x)
        return s if ("." in s or "e" in s) else s + ".0"
    if isinstance(x, str): return json.dumps(x)
    if isinstance(x, dict): return "{" + ",".join(json.dumps(k) + ":" + dump(v) for k, v in x.items()) + "}"
    return "[" + ",".join(dump(v) for v in x) + "]"

# ---- executing sessions --------------------------------------------------------------------------
def _limits(mem_gb=6):
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def run_chunk(cmd, sessions, tmo, env=None, cwd=None):
    """sessions: list of (opts, [(op, in)]). Returns per session the list of result lines (as text)."""
    res = [None] * len(sessions)
    todo = list(range(len(sessions)))
    while todo:
        with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
            for k in todo:
                opts, evs = sessions[k]
                fi.write((dump({"op": "reset", "thr": opts.get("thr", 1)}) + "\n").encode())
                for op, arg in evs:
                    ev = {"op": op, "in": arg}
                    if opts.get("race"): ev["race"] = True
                    fi.write((dump(ev) + "\n").encode())
            fi.seek(0)
            hung = False
            scratch = tempfile.mkdtemp(prefix="vfs-")
            p = subprocess.Popen(cmd, stdin=fi, stdout=fo, stderr=fe, env=dict(env or os.environ, GRIDPP_SCRATCH=scratch), cwd=cwd, preexec_fn=_limits)
            try:
                p.wait(tmo)
            except subprocess.TimeoutExpired:
                hung = True
                p.kill(); p.wait()
            shutil.rmtree(scratch, ignore_errors=True)
            fo.seek(0); fe.seek(0)
            lines = fo.read().decode(errors="replace").split("\n")
            if lines and lines[-1] != "":
                lines.pop()
            lines = [l for l in lines if l]
            err = fe.read().decode(errors="replace")
        i = 0; rest = []
        for n, k in enumerate(todo):
            evs = sessions[k][1]
            need = len(evs) + 1
            if i + need <= len(lines):
                res[k] = lines[i + 1:i + need]; i += need
                continue
            if p.returncode == 4 and not hung:
                raise build.BuildError("driver: " + err[-500:])
            got = lines[i + 1:i + need] if i < len(lines) else []
            if p.returncode == 5 and not hung:
                # the program gave up with an error of its own: the session ends with it
                res[k] = got
                rest = todo[n + 1:]
                break
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|Assertion[^\n]*|what\(\)[^\n]*|Error:[^\n]*)", err)
            what = "hang" if hung else "crash"
            res[k] = got + ['{"r":"%s","msg":%s}' % (what, json.dumps((m.group(1) if m else "exit %s" % p.returncode)[:300]))]
            rest = todo[n + 1:]
            break
        else:
            if (p.returncode not in (0, 5)) or hung:
                # everything was answered, and then the program failed (a leak, a destructor)
                res[todo[-1]] = res[todo[-1]][:-1] + ['{"r":"crash","msg":%s}' % json.dumps("at exit: " + err[-300:])]
        todo = rest
    return res

def execute(cmd, sessions, jobs=8, tmo=120, env=None, cwd=None):
    n = max(1, min(400, (len(sessions) + jobs * 3 - 1) // (jobs * 3)))
    chunks = [sessions[i:i + n] for i in range(0, len(sessions), n)]
    out = []
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda c: run_chunk(cmd, c, tmo, env, cwd), chunks):
            out += r
    return out

def trace_line(sess, res):
    evs = []
    for (op, arg), r in zip(sess[1], res):
        assert r.startswith('{"r":')
        evs.append('{"op":%s,"in":%s,%s' % (json.dumps(op), dump(arg), r[1:]))
    return '{"ev":[' + ",".join(evs) + "]}"

# ---- TLC -----------------------------------------------------------------------------------------
class SpecError(Exception):
    pass

def tlc(module, cfg_text, workers=8, tmo=800, props=(), extra=(), heap="6g", files=()):
    """Runs TLC in a directory of its own. Returns its output."""
    d = tempfile.mkdtemp(prefix="tlc-")
    try:
        with open(os.path.join(d, module + ".cfg"), "w") as h:
            h.write(cfg_text)
        for name, text in files:
            with open(os.path.join(d, name), "w") as h:
                h.write(text)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", build.classes() + ":" + build.TLA, "-DTLA-Library=" + SPEC,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:GridppOverrides"] + ["-D" + p for p in props] + \
              ["tlc2.TLC", "-nowarning", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", os.path.join(d, module + ".cfg")] + list(extra) + \
              [os.path.join(d, module + ".tla") if any(f[0] == module + ".tla" for f in files) else os.path.join(SPEC, module + ".tla")]
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=tmo)
        except subprocess.TimeoutExpired as e:
            raise SpecError("TLC did not finish in %d s" % tmo)
        return p.returncode, p.stdout.decode(errors="replace")
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)

def counts(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])

BATCH = 6000   # TLC writes longer queues of states to disk, which it cannot do with real numbers
def judge(lines, module="GridppTrace", debug=False, workers=8, tmo=800):
    """Has TLC follow every trace. Returns (states, transitions, [(trace, event)] not allowed, output)."""
    batches = [(i, lines[i:i + BATCH]) for i in range(0, len(lines), BATCH)]
    if not batches:
        return 0, 0, [], ""
    par = min(2, len(batches))
    with concurrent.futures.ThreadPoolExecutor(par) as ex:
        res = list(ex.map(lambda b: judge1(b[1], module, debug, max(1, workers // par), tmo), batches))
    return (sum(r[0] for r in res), sum(r[1] for r in res), [(a + i, b) for (i, _), r in zip(batches, res) for a, b in r[2]], "".join(r[3] for r in res))

def judge1(lines, module, debug, workers, tmo):
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    with os.fdopen(fd, "w") as h:
        h.write("\n".join(lines) + "\n")
    try:
        rc, out = tlc(module, 'CONSTANT TraceFile = "%s"\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' % path, workers=workers, tmo=tmo,
                      props=["gridpp.total.debug=1"] if debug else [])
    finally:
        os.unlink(path)
    rej = sorted(set((int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)', out)))
    gen, dist = counts(out)
    want = sum(l_events(l) + 1 for l in lines)
    if "Finished in" not in out or "Error:" in out or dist != want:
        at = out.find("Error:")
        raise SpecError("TLC: %d states for %d\n%s" % (dist, want, out[at:at + 1500] if at >= 0 else out[-3000:]))
    return dist, gen - len(lines), rej, out

def l_events(line):
    return len(json.loads(line)["ev"])

# ---- known findings ------------------------------------------------------------------------------
def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.strip() and not l.startswith("fixed:"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out

# ---- a check -------------------------------------------------------------------------------------
class Run:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.violations, self.notes, self.assumptions = [], [], []
        self.findings = known(prop)
        self.seen = set()
    def quick(self):
        return self.tier == "quick"
    def add(self, states, transitions, traces=0):
        self.cov["states"] += states; self.cov["transitions"] += transitions; self.cov["traces_validated_against_impl"] += traces
    def replay(self, name, obj):
        d = os.path.join(VERIF, "build", "replay", self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name + ".json")
        with open(p, "w") as h:
            h.write(obj if isinstance(obj, str) else dump(obj))
        return p
    def violation(self, name, obj, text):
        p = self.replay(name, obj)
        self.violations.append((p, text))
    def finding(self, f, text=""):
        if f["id"] not in self.seen:
            self.seen.add(f["id"])
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, f["id"], f["what"]))
    def sessions(self, sessions, variant="plain", module="GridppTrace", cmd=None, label="", opts=None, env=None, tmo=120, jobs=8, accept=None, post=None):
        """Executes and judges; every rejected event is tried once more in a process of its own."""
        cmd = cmd or [build.driver(variant)]
        norm = [s if isinstance(s, tuple) else (opts or {}, s) for s in sessions]
        t = time.time()
        res = execute(cmd, norm, env=env, tmo=tmo, jobs=jobs)
        if post: res = post(res)
        t1 = time.time()
        lines = [trace_line(s, r) for s, r in zip(norm, res)]
        st, tr, rej, out = judge(lines, module)
        self.add(st, tr, len(lines))
        self.cov.setdefault("operations", {})
        for l in norm:
            for op, _ in l[1]:
                self.cov["operations"][op] = self.cov["operations"].get(op, 0) + 1
        errs = sum(r.startswith('{"r":"err"') for rr in res for r in rr)
        self.cov["errors_raised"] = self.cov.get("errors_raised", 0) + errs
        self.cov["distinct_inputs"] = self.cov.get("distinct_inputs", 0) + len(set(l.split('"r":')[0] for l in lines))
        if len(self.cov["samples"]) < 3 and lines:
            l = lines[len(lines) // 2]
            self.cov["samples"].append(l[:1500])
        print("%s%s: %d sessions, %d events, executed in %.1f s, judged in %.1f s, %d not allowed" % (self.prop, label and " " + label, len(lines), sum(len(r) for r in res), t1 - t, time.time() - t1, len(rej)))
        byt = {}
        for a, b in rej:
            byt.setdefault(a, []).append(b)
        reported = 0
        if os.environ.get("VF_REJECTED"):   # for looking into what is rejected: all of it
            with open(os.environ["VF_REJECTED"], "a") as h:
                for a in byt: h.write("%d %s\n" % (byt[a][0], lines[a - 1]))
        for a in sorted(byt, key=lambda a: len(lines[a - 1])):
            if accept and accept(norm[a - 1], res[a - 1], byt[a]):
                continue
            reported += 1
            if reported > 5:
                continue
            again = run_chunk(cmd, [norm[a - 1]], tmo, env)[0] if not post else res[a - 1]
            l2 = trace_line(norm[a - 1], again)
            _, _, rej2, out2 = judge([l2], module, debug=True, workers=1)
            k = byt[a][0]
            text = "operation %s (event %d of the session) is not allowed by the specification%s" % (norm[a - 1][1][k - 1][0], k, "" if rej2 else " (the second execution was: results differ between executions)")
            self.violation("%s%d" % (label or "s", reported), lines[a - 1], text)
        return lines, rej
    def design(self, module, cfg, label=None, expect=True, **kw):
        """Checks a design model exhaustively; its invariants must hold whatever the code is."""
        t = time.time()
        rc, out = tlc(module, cfg, **kw)
        gen, dist = counts(out)
        if rc != 0 or "Model checking completed. No error" not in out:
            raise SpecError("design model %s\n%s" % (module, out[-3000:]))
        self.add(dist, gen)
        self.cov.setdefault("design_models", {})[label or module] = {"distinct_states": dist, "generated": gen}
        print("%s design model %s: %d distinct states in %.1f s" % (self.prop, label or module, dist, time.time() - t))
    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        for p, text in self.violations:
            print("  " + text)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if not self.violations:
            print("%s: held on everything explored (%.0f s)" % (self.prop, time.time() - self.t0))
        return 1 if self.violations else 0
