"""Machinery shared by the checks: building the harness, running TLC, running the real code."""
from fractions import Fraction
import json, os, random, re, shutil, subprocess, sys, time, hashlib, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


def say(*a):
    print(*a, flush=True)


def cargo_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
               RUSTFLAGS="--warn=semicolon_in_expressions_from_macros")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        env.pop(k, None)
    return env


def cargo(cwd, args, target):
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = target
    p = subprocess.run(["cargo", *args, "--offline"], cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        say(p.stdout[-6000:])
        raise ToolError("cargo %s failed in %s" % (" ".join(args), cwd))


_built = {}


def build_harness():
    """The harness and, through its path dependency, the library from REPO's working tree."""
    if "hx" not in _built:
        t0 = time.time()
        hdir = os.path.join(VERIF, "harness")
        target = os.path.join(hdir, "target")
        cargo(hdir, ["build", "--locked"], target)
        _built["hx"] = os.path.join(target, "debug", "hx")
        say("  built harness in %.1fs" % (time.time() - t0))
    return _built["hx"]


def build_cli():
    """fecl, built in a target directory of our own from REPO's working tree."""
    if "fecl" not in _built:
        t0 = time.time()
        target = os.path.join(VERIF, "work", "cli-target")
        cargo(REPO, ["build", "--locked", "-p", "fecl"], target)
        exe = None
        for n in sorted(os.listdir(os.path.join(target, "debug"))):
            f = os.path.join(target, "debug", n)
            if os.path.isfile(f) and os.access(f, os.X_OK) and "." not in n:
                exe = f
        if not exe:
            raise ToolError("no cli executable")
        _built["fecl"] = exe
        say("  built cli in %.1fs" % (time.time() - t0))
    return _built["fecl"]


def workdir():
    d = os.path.join(WORK, "run-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


_n = [0]


def tmp(name):
    _n[0] += 1
    return os.path.join(workdir(), "%03d-%s" % (_n[0], name))


def cleanup():
    shutil.rmtree(os.path.join(WORK, "run-%d" % os.getpid()), ignore_errors=True)


LITERAL = re.compile(r'\bS\("((?:[^"\\]|\\.)*)"\)')
STR = re.compile(r'"(?:[^"\\]|\\.)*"')
SETLIT = re.compile(r'\{S\(x\) : x \\in \{((?:\s*"(?:[^"\\]|\\.)*",?)*)\}\}')
SPECIAL = {"~": 10, "^": 13, "`": 9}


def expand(text):
    """S("..") written out as a tuple: TLC would evaluate the operator again at every use."""
    def lit(m):
        s = m.group(1).replace("\\\\", "\0").replace('\\"', '"').replace("\0", "\\")
        return "<< " + ", ".join(str(SPECIAL.get(ch, ord(ch))) for ch in s) + " >>"
    text = SETLIT.sub(lambda m: "{" + ", ".join("S(%s)" % x for x in STR.findall(m.group(1))) + "}", text)
    return LITERAL.sub(lit, text)


_spec = []


def specdir():
    if not _spec:
        d = os.path.join(workdir(), "spec")
        os.makedirs(d, exist_ok=True)
        for n in os.listdir(SPEC):
            if n.endswith(".tla"):
                with open(os.path.join(SPEC, n)) as f, open(os.path.join(d, n), "w") as o:
                    o.write(expand(f.read()))
        _spec.append(d)
    if not os.path.isdir(_spec[0]):
        _spec.clear()
        return specdir()
    return _spec[0]


STATS = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")


def tlc(module, consts=None, invs=(), spec="Spec", env=None, timeout=800, workers=8, deadlock=False,
        props=(), constraint=None, extra=(), coverage=False, view=None):
    """Run TLC; returns (emitted records, statistics).  Any TLC error is an error of the tool."""
    cfg = tmp(module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        for k, v in (consts or {}).items():
            v = ("TRUE" if v else "FALSE") if isinstance(v, bool) else '"%s"' % v if isinstance(v, str) else str(v)
            f.write("CONSTANT %s = %s\n" % (k, v))
        for i in invs:
            f.write("INVARIANT %s\n" % i)
        for i in props:
            f.write("PROPERTY %s\n" % i)
        if view:
            f.write("VIEW %s\n" % view)
        if constraint:
            f.write("CONSTRAINT %s\n" % constraint)
        f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
    meta = cfg + ".meta"
    cmd = ["java", "-Xss512m", "-Xmx12g", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, "-fp", "1", *extra, module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    out = cfg + ".out"
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=specdir(), env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
    recs, rest = [], []
    with open(out) as f:
        for l in f:
            if l.startswith('"{'):
                try:
                    recs.append(json.loads(json.loads(l)))
                except ValueError:
                    raise ToolError("garbled TLC output: " + l[:200])
            else:
                rest.append(l)
    text = "".join(rest)
    shutil.rmtree(meta, ignore_errors=True)
    os.unlink(out)
    if p.returncode or "No error has been found" not in text:
        keep = os.path.join(WORK, "tlc-error-%s.txt" % module)
        with open(keep, "w") as f:
            f.write(text)
        say("\n".join(l for l in text.splitlines() if not l.startswith(("Parsing file", "Semantic proc")))[-2000:])
        raise ToolError("TLC reported an error in the specification %s (%s)" % (module, keep))
    m = STATS.findall(text)
    gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return recs, {"module": module, "consts": {a: str(b) if isinstance(b, set) else b for a, b in (consts or {}).items()}, "generated": gen, "distinct": dist,
                  "records": len(recs), "wall_s": round(time.time() - t0, 2)}


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def real(reqs, limit=20):
    """Execute requests on the real code.  Crashes and hangs become outcomes."""
    hx = build_harness()
    res, base, falls = [], 0, 0
    while base < len(reqs):
        fin, fout = tmp("in"), tmp("out")
        with open(fin, "w") as f:
            for r in reqs[base:]:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        p = subprocess.run([hx, fin, fout, str(limit)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           preexec_fn=limit_mem, cwd=workdir())
        got = []
        with open(fout) as f:
            for l in f:
                try:
                    got.append(json.loads(l))
                except ValueError:
                    break
        os.unlink(fin), os.unlink(fout)
        res += got
        base += len(got)
        if p.returncode == 0:
            if base != len(reqs):
                raise ToolError("harness lost results")
            break
        if p.returncode == 3:
            raise ToolError("harness: " + p.stderr[-2000:])
        if base >= len(reqs):
            raise ToolError("harness ended with %d: %s" % (p.returncode, p.stderr[-500:]))
        what = "hang" if p.returncode == 4 else "crash"
        res.append({"r": what, "m": (p.stderr or "").strip()[-200:] + " status %d" % p.returncode})
        base += 1
        falls += 1
        if falls >= 4:      # enough to report
            res += [{"r": "skipped"}] * (len(reqs) - base)
            break
    return res


def canon(x):
    """Items of merged maps are unordered."""
    if isinstance(x, list):
        x = [canon(y) for y in x]
        if len(x) == 2 and x[0] == "M" and isinstance(x[1], list):
            x = ["M", sorted(x[1], key=lambda y: json.dumps(y, sort_keys=True))]
    elif isinstance(x, dict):
        x = {k: canon(v) for k, v in x.items()}
    return x


def txt(t):
    return t if isinstance(t, str) else "".join(map(chr, t))


def cps(t):
    return [ord(c) for c in t]


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.jobs, self.violations, self.samples = [], [], []
        self.states = self.transitions = self.traces = self.evals = 0
        self.seen = set()
        self.assumptions = []
        self.extra = {}

    def tlc(self, module, *a, **k):
        recs, st = tlc(module, *a, **k)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.jobs.append(st)
        say("  tlc %-12s %s: %d states, %d records, %.1fs" % (
            module, " ".join("%s=%s" % kv for kv in st["consts"].items()), st["distinct"], st["records"], st["wall_s"]))
        return recs

    def real(self, reqs, **k):
        res = real(reqs, **k)
        self.evals += len(reqs)
        return res

    def note(self, req, res):
        self.seen.add(hashlib.md5(json.dumps(req, sort_keys=True).encode()).digest())

    def sample(self, req, res, n=4):
        if len(self.samples) < n:
            self.samples.append({"request": show(req), "outcome": show(res)})

    def violation(self, what, req, expected, got):
        self.violations.append({"what": what, "request": req, "expected": expected, "got": got})

    def vectors(self, recs, what="differs from the specification", judge=None, strip=("x", "i")):
        """Specification to code: execute every vector and compare with what the specification says."""
        reqs = [{k: v for k, v in r.items() if k not in strip} for r in recs]
        res = self.real(reqs)
        judge = judge or judge_full
        n = 0
        for r, q, g in zip(recs, reqs, res):
            if g["r"] == "skipped":
                continue
            n += 1
            bad = judge(r["x"], g)
            if bad:
                self.violation(bad if isinstance(bad, str) else what, q, r["x"], g)
            if len(self.samples) < 4 and r["x"].get("r") == "ok" and len(json.dumps(q)) > 40:
                self.sample(q, g)
        self.traces += n
        return res

    def validate(self, module, traces, judge=None, what="recorded outcome is not a behaviour of the specification",
                 consts=None, spec="Spec", inv="Conforms", also=(), **k):
        """Code to specification: TLC decides for every recorded execution whether the machine allows it."""
        keep = []
        for t in traces:
            if t["res"]["r"] in ("panic", "hang", "crash"):
                if (judge or judge_full)({"r": "any"}, t["res"]):
                    self.violation("the call ends with " + t["res"]["r"], {a: b for a, b in t.items() if a != "res"},
                                   {"r": "a result or an error"}, t["res"])
            elif t["res"]["r"] != "skipped":
                keep.append(t)
        if not keep:
            return
        f = tmp("trace.ndjson")
        with open(f, "w") as o:
            for t in keep:
                o.write(json.dumps(t, separators=(",", ":")) + "\n")
        recs = self.tlc(module, consts=consts, invs=(inv, *also), env={"TRACE": f}, spec=spec, **k)
        os.unlink(f)
        self.traces += len(keep)
        for r in recs:
            t = keep[r["i"] - 1]
            bad = (judge or judge_full)(r["x"], t["res"])
            if bad:
                self.violation(bad if isinstance(bad, str) else what, {a: b for a, b in t.items() if a != "res"}, r["x"], t["res"])
        for t in keep[:2]:
            self.sample({a: b for a, b in t.items() if a != "res"}, t["res"])

    def finish(self, known):
        """Evidence, report, exit status."""
        status = 0
        shown, first = 0, None
        uniq = {}
        for v in self.violations:
            key = json.dumps(v["request"], sort_keys=True)
            uniq.setdefault(key, v)
        vs = sorted(uniq.values(), key=lambda v: len(json.dumps(v["request"])))
        fresh = []
        for v in vs:
            k = known.match(self.prop, v)
            if k:
                say("KNOWN-FINDING: property=%s %s" % (self.prop, k))
            else:
                fresh.append(v)
        if fresh:
            os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
            for v in fresh[:5]:
                h = hashlib.md5(json.dumps(v["request"], sort_keys=True).encode()).hexdigest()[:10]
                p = os.path.join(WORK, "replays", "%s-%s.json" % (self.prop, h))
                with open(p, "w") as f:
                    json.dump(dict(v, property=self.prop), f, indent=1)
                say("VIOLATION property=%s replay=%s" % (self.prop, p))
                say("   %s" % v["what"])
                say("   request  %s" % json.dumps(show(v["request"]), ensure_ascii=True)[:700])
                say("   expected %s" % json.dumps(show(v["expected"]), ensure_ascii=True)[:700])
                say("   got      %s" % json.dumps(show(v["got"]), ensure_ascii=True)[:700])
            if len(fresh) > 5:
                say("   ... %d violations in all" % len(fresh))
            status = 1
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "calls_to_the_real_code": self.evals, "samples": self.samples[:6] or ["none"], "tlc_runs": self.jobs}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        say("%s: %s  %d states, %d traces, %d calls, %.1fs" % (
            self.prop, "VIOLATED" if status else "held", self.states, self.traces, self.evals, time.time() - self.t0))
        return status


def show(x, key=None):
    """Make texts readable."""
    if isinstance(x, dict):
        return {k: show(v, k) for k, v in x.items()}
    if isinstance(x, list):
        if x and all(isinstance(c, int) and not isinstance(c, bool) and 0 <= c < 0x110000 for c in x):
            if any(0xD800 <= c < 0xE000 for c in x):
                return x
            return "".join(map(chr, x))
        return [show(v) for v in x]
    return x


# ---- judgements -----------------------------------------------------------------------------
def judge_full(x, g):
    """Acceptance and content.  A panic, crash or hang is judged by C08 and by whoever expects a value."""
    if x["r"] == "any":
        return True
    if x["r"] != g["r"]:
        return "expected %s, the call ends with %s" % (x["r"], g["r"])
    if x["r"] == "ok" and canon(x.get("v")) != canon(g.get("v")):
        return "another result"
    return None


def judge_tree(x, g):
    """Content of what is accepted by both."""
    if x["r"] == "ok" and g["r"] == "ok" and canon(x.get("v")) != canon(g.get("v")):
        return "the tree is not what the text says"
    return None


def judge_accept(x, g):
    if x["r"] == "ok" and g["r"] == "err":
        return "a conforming text is rejected"
    if x["r"] == "err" and g["r"] == "ok":
        return "a text that does not conform is accepted"
    return None


def lenient(a, b):
    """Equal trees; floats of more than 15 digits or at the ends of the range are compared approximately."""
    def mag(f):
        return 309 if f[0] == "inf" else -330 if f[2] == [0] else len(f[2]) + f[3]
    def eq(a, b):
        if isinstance(a, list) and a and a[0] == "flt" and len(a) == 4 and isinstance(a[1], bool):
            m = mag(a)
            if len(a[2]) > 15 or m <= -300 or m >= 308:
                if not (isinstance(b, list) and b and b[0] in ("flt", "inf")):
                    return False
                n = mag(b)
                if m < -300 or n < -300:
                    return m < -299 and n < -299
                if m > 307 or n > 307:
                    return m > 306 and n > 306 and a[1] == b[1]
                x, y = (int("".join(map(str, f[2]))) * Fraction(10) ** f[3] for f in (a, b))
                return abs(x - y) * 10 ** 14 <= x and a[1] == b[1]
        if isinstance(a, list) and isinstance(b, list):
            return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
        return a == b and type(a) == type(b)
    return eq(canon(a), canon(b))


def judge_value(x, g):
    if x["r"] == "any":
        return None
    if x["r"] != g["r"]:
        return "expected %s, the call ends with %s" % (x["r"], g["r"])
    if x["r"] == "ok" and not lenient(x.get("v"), g.get("v")):
        return "another result"
    return None


def judge_survive(x, g):
    if g["r"] in ("panic", "hang", "crash"):
        return "the call ends with " + g["r"]
    return None


class Known:
    """known-findings file: one JSON object per line for findings, 'fixed:' lines are records only."""
    def __init__(self):
        self.items = []
        p = os.path.join(VERIF, "KNOWN_FINDINGS")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith("finding:"):
                    self.items.append(json.loads(l[8:]))

    def match(self, prop, v):
        for k in self.items:
            if k["property"] == prop and k["request"] == v["request"] and k.get("got") == v["got"].get("r"):
                return k["what"]
        return None


def tlc_smoke():
    recs, st = tlc("HclEnum", {"Alpha": "struct", "Kind": "parse", "MaxK": 2, "Out": True}, invs=("Emit", "Whole"))
    if not recs:
        raise ToolError("TLC does not emit")
