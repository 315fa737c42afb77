"""Shared machinery of the checks: scratch space, guarded calls into PyX, TLC runs, verdicts, evidence."""
import faulthandler, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HOME, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class CallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CallTimeout()


class Outcome:
    """Result of a guarded call: kind is 'ok', 'exc' or 'timeout'."""

    def __init__(self, kind, value=None, exc=None):
        self.kind, self.value, self.exc = kind, value, exc

    @property
    def ok(self):
        return self.kind == "ok"

    def __repr__(self):
        return "Outcome(%s, %r, %r)" % (self.kind, self.value, self.exc)


_timeouts = [0]


def guard(f, *args, seconds=20, **kwargs):
    """call f; exceptions and endless loops become outcomes instead of ending the check"""
    # endless loops are violations: once there are some, further ones are given up earlier
    seconds = min(seconds, 20 if _timeouts[0] < 3 else 1 if _timeouts[0] < 20 else 0.2)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        try:
            value = f(*args, **kwargs)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except CallTimeout:
        _timeouts[0] += 1
        return Outcome("timeout", exc="timeout")
    except (Exception, SystemExit, RecursionError) as e:
        return Outcome("exc", exc="%s: %s" % (type(e).__name__, str(e)[:200]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return Outcome("ok", value)


class TLCResult:
    def __init__(self):
        self.generated = self.distinct = self.depth = 0
        self.violated = None
        self.out = ""
        self.prints = []
        self.wall = 0.0


class Context:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        os.environ["PYTHONPYCACHEPREFIX"] = os.path.join(self.tmp, "pyc")
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.violations = []       # (key, message, data)
        self.known = load_known(prop)
        self.known_hit = {}
        self.assumptions = []
        self.machinery = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.prop, time.time() - self.t0, msg), flush=True)

    # ---- verdicts -------------------------------------------------------------------------
    def violation(self, key, message, data=None):
        """key identifies the failing input / call site / history (known findings match on it)"""
        for k in self.known:
            if re.search(k["match"], key):
                self.known_hit.setdefault(k["match"], (k, key))
                return
        self.violations.append((key, message, data))
        if len(self.violations) <= 10:
            self.log("violation: %s: %s" % (key, str(message)[:600]))

    def sample(self, s, limit=3):
        if len(self.samples) < limit:
            self.samples.append(s)

    def note(self, **kw):
        self.notes.update(kw)

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, constants=None, init="Init", next="Next", spec=None, invariants=(), properties=(),
            constraints=(), action_constraints=(), data=None, workers=6, timeout=600, heap="6g", simulate=None,
            depth=None, view=None, extra=(), postcondition=None, expect_violation=False, count=True, deadlock=False,
            stack="64m", label=None, raw=None):
        """run TLC on /verif/spec/<module>.tla; data: dict name -> python object written as <name>.json"""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, obj in (data or {}).items():
            with open(os.path.join(d, name + ".json"), "w") as f:
                json.dump(obj, f)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION %s" % spec)
        else:
            cfg.append("INIT %s\nNEXT %s" % (init, next))
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, tla(v)))
        for k, v in (raw or {}).items():
            cfg.append("CONSTANT %s %s" % (k, v))
        for i in invariants:
            cfg.append("INVARIANT %s" % i)
        for p in properties:
            cfg.append("PROPERTY %s" % p)
        for c in constraints:
            cfg.append("CONSTRAINT %s" % c)
        for c in action_constraints:
            cfg.append("ACTION_CONSTRAINT %s" % c)
        if view:
            cfg.append("VIEW %s" % view)
        if postcondition:
            cfg.append("POSTCONDITION %s" % postcondition)
        cfg.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-Djava.io.tmpdir=" + d,
               "-XX:TieredStopAtLevel=4", "-cp", TLA_CP, "tlc2.TLC", "-config", module + ".cfg",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "states")]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        outname = os.path.join(d, "out.txt")
        with open(outname, "w") as outf:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=outf, stderr=subprocess.STDOUT, timeout=timeout,
                                   stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                raise MachineryError("TLC timed out on %s after %ds" % (module, timeout))
        r = TLCResult()
        r.wall = time.time() - t
        with open(outname, errors="replace") as f:
            r.out = f.read()
        r.rc = p.returncode
        for line in r.out.splitlines():
            m = re.match(r'^"(@.*)"$', line)
            if m:
                r.prints.append(unescape(m.group(1)))
        # the workers of TLC print in any order
        r.prints.sort()
        m = re.findall(r"(\d+) states generated(?:.*?), (\d+) distinct states found", r.out)
        if m:
            r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"The number of states generated: (\d+)", r.out)
        if m and not r.generated:
            r.generated = r.distinct = int(m.group(1))
        m = re.search(r"The depth of the complete state graph search is (\d+)", r.out)
        if m:
            r.depth = int(m.group(1))
        m = re.search(r"(?:Invariant|Action property|Temporal property) (\S+) is violated", r.out)
        if m:
            r.violated = m.group(1)
        elif re.search(r"Temporal properties were violated", r.out):
            r.violated = "temporal"
        elif re.search(r"is violated|violated\.", r.out):
            r.violated = "property"
        if p.returncode != 0 and r.violated is None:
            e = MachineryError("TLC failed on %s (rc %d):\n%s" % (module, p.returncode, tail(r.out)))
            e.out = r.out
            raise e
        if p.returncode == 0 and not simulate and "No error has been found" not in r.out and "Model checking completed" not in r.out:
            raise MachineryError("TLC gave no verdict on %s:\n%s" % (module, tail(r.out)))
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        self.log("TLC %s%s: %d generated, %d distinct, depth %d, %.1fs%s" % (
            module, " (%s)" % label if label else "", r.generated, r.distinct, r.depth, r.wall,
            ", VIOLATED " + r.violated if r.violated else ""))
        shutil.rmtree(d, ignore_errors=True)
        return r

    def model_check(self, module, **kw):
        """exhaustive check of the specification itself: a violation here is an error of the spec"""
        r = self.tlc(module, **kw)
        if r.violated:
            raise MachineryError("specification %s violates its own %s:\n%s" % (module, r.violated, "\n".join(x for x in tail(r.out, 4000).splitlines() if not x.startswith("\"@"))[-3000:]))
        return r

    def validate(self, module, traces, key=None, describe=None, constants=None, timeout=800, workers=6,
                 count_events=True, label=None, heap="6g", chunk=4000, events="ev", extra_invariants=()):
        """Check recorded traces against the trace specification <module> (see spec/TraceLib.tla).

        Every trace is a JSON object with a list of events; the specification steps through them and
        prints one total verdict per rejected trace: @R <index> <event number> <failing clause>."""
        if not traces:
            return []
        rejected = []
        for base in range(0, len(traces), chunk):
            part = traces[base:base + chunk]
            undefined = {}

            def report():
                for i, l in undefined.items():
                    t = traces[base + i]
                    self.violation(key(t, l, "undefined") if key else "undefined@%d" % (base + i),
                                   describe(t, l, "undefined") if describe else "trace %d has no meaning at event %d" % (base + i, l), {"trace": t, "event": l, "why": "undefined"})
            while True:
                try:
                    # a trace for which the specification has no value ends in front of the event in question
                    data = [dict(t, **{events: t[events][:undefined[i] - 1]}) if i in undefined else t for i, t in enumerate(part)]
                    r = self.tlc(module, data={"traces": data}, constants=constants, timeout=timeout, workers=workers,
                                 label=label or "%d traces" % len(part), heap=heap, invariants=["Verdict"] + list(extra_invariants))
                    break
                except MachineryError as e:
                    out = getattr(e, "out", "")
                    tid, l = re.findall(r"^/\\ tid = (\d+)", out, re.M), re.findall(r"^/\\ l = (\d+)", out, re.M)
                    if "evaluating the nested" not in out or not tid or not l or len(undefined) >= 5 or int(tid[-1]) - 1 in undefined:
                        report()
                        raise
                    undefined[int(tid[-1]) - 1] = int(l[-1]) + 1
            part = data
            report()
            if r.violated:
                raise MachineryError("%s: %s violated during trace validation:\n%s" % (module, r.violated, tail(r.out, 60)))
            bad = {}
            for line in r.prints:
                if line.startswith("@R "):
                    _, tid, l, why = line.split(" ", 3)
                    bad.setdefault(int(tid), (int(l), why))
            expect = sum(len(t[events]) + 1 for i, t in enumerate(part) if i + 1 not in bad)
            expect += sum(bad[i][0] + 1 for i in bad)
            if r.distinct != expect:
                raise MachineryError("%s: %d distinct states but %d expected: trace not fully consumed\n%s"
                                     % (module, r.distinct, expect, tail(r.out)))
            self.traces += len(part)
            for i in sorted(bad):
                t = part[i - 1]
                l, why = bad[i]
                k = (key(t, l, why) if key else "%s@%d" % (why, base + i))
                rejected.append((base + i - 1, l, why))
                self.violation(k, describe(t, l, why) if describe else "trace %d rejected at event %d: %s" % (base + i, l, why),
                               {"trace": t, "event": l, "why": why})
        return rejected

    # ---- end ------------------------------------------------------------------------------
    def finish(self):
        wall = time.time() - self.t0
        for k, (entry, key) in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, entry["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(wall, 2), "violations": len(self.violations)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        with open(os.path.join(HOME, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            rdir = os.path.join(HOME, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"key": k, "message": m, "data": d} for k, m, d in self.violations[:20]], f, indent=1, default=str)
            self.log("%d violations" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, HOME)), flush=True)
            return 1
        if not self.samples or (self.states + self.traces) == 0:
            print("MACHINERY-ERROR: nothing was explored", file=sys.stderr)
            return 2
        self.log("held: %d states, %d transitions, %d traces validated, %.1fs" % (self.states, self.transitions, self.traces, wall))
        return 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def tail(s, n=40):
    return "\n".join([l for l in s.splitlines() if not re.match(r"\d+\. Line |^$", l)][-n:])


def unescape(s):
    """undo TLC's escaping of a printed string"""
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            c = s[i + 1]
            out.append({"n": "\n", "t": "\t", "r": "\r", "f": "\f"}.get(c, c))
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def tla(v):
    """python value -> TLA+ constant expression for a cfg file"""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{%s}" % ", ".join(tla(x) for x in sorted(v, key=str))
    raise TypeError(v)


def load_known(prop):
    """known findings: lines '<property> <regex on the violation key> :: <what fails>' in KNOWN_FINDINGS.txt"""
    path = os.path.join(HOME, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                head, _, what = line.partition(" :: ")
                p, _, match = head.partition(" ")
                if p == prop:
                    res.append({"match": match.strip(), "what": what.strip()})
    return res


def near_int(x, scale=1, tol=1e-6):
    """x*scale as an integer if it is one (within tol), else None"""
    y = x * scale
    r = round(y)
    return int(r) if abs(y - r) <= tol * max(1, scale) else None
