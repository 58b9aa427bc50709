"""Shared machinery: building drivers from /repo, running TLC, validating traces."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
BUILD = os.path.join(VERIF, "build")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself could not decide (exit 2)."""


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(path):
    with open(path, "rb") as f:
        return f.read()


# ------------------------------------------------------------------ build --
CXXFLAGS = ["-std=c++17", "-O1", "-DHAVE_ZLIB", "-D_GLIBCXX_ASSERTIONS", "-w", "-pthread"]
PROTOS = ["base/base.proto", "eval/eval.proto", "traders/trader_config.proto"]
PKGS = ["protobuf", "zlib", "absl_status", "absl_statusor", "absl_str_format", "absl_time", "absl_strings",
        "absl_memory"]
FLAG_PKGS = ["absl_flags", "absl_flags_parse"]


def _pkg(args):
    r = subprocess.run(["pkg-config"] + args, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("pkg-config failed: " + r.stderr)
    return r.stdout.split()


def repo_sources(dirs):
    out = []
    for d in dirs:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cc"))):
            n = os.path.basename(f)
            if n.endswith("_test.cc") or n.startswith("test_") or n.endswith("_main.cc"):
                continue
            out.append(os.path.relpath(f, REPO))
    return out


def library_dirs():
    return sorted({os.path.basename(os.path.dirname(f)) for f in glob.glob(os.path.join(REPO, "*", "*.cc"))
                   if not os.path.basename(os.path.dirname(f)).startswith(("_", "."))})


class Builder:
    """Compiles /repo sources (current working tree) with content-addressed objects."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = threading.Lock()
        hdrs = sorted(glob.glob(os.path.join(REPO, "*", "*.h")) + glob.glob(os.path.join(REPO, "*.h")))
        self.protos = [p for p in PROTOS if os.path.exists(os.path.join(REPO, p))]
        self.hkey = sha(*[os.path.relpath(h, REPO).encode() + read(h) for h in hdrs],
                        *[read(os.path.join(REPO, p)) for p in self.protos], " ".join(CXXFLAGS))
        self.gen = os.path.join(BUILD, "gen-" + self.hkey)

    def protoc(self):
        with self.lock:
            if os.path.exists(self.gen):
                return
            tmp = tempfile.mkdtemp(prefix="gen-tmp-", dir=BUILD)
            r = subprocess.run(["protoc", "-I", REPO, "--cpp_out", tmp] + self.protos, capture_output=True, text=True)
            if r.returncode:
                raise CheckError("protoc failed:\n" + r.stderr)
            try:
                os.rename(tmp, self.gen)
            except OSError:          # another process was faster
                shutil.rmtree(tmp, ignore_errors=True)

    def compile(self, src, extra_key=""):
        """src: absolute path. Returns the object file."""
        key = sha(self.hkey, read(src), src if src.startswith(self.gen) else os.path.basename(src), extra_key)
        obj = os.path.join(BUILD, "obj-%s-%s.o" % (os.path.basename(src).replace(".", "_"), key))
        if os.path.exists(obj):
            return obj
        tmp = "%s.%d-%d.tmp" % (obj, os.getpid(), threading.get_ident())
        cmd = ["g++"] + CXXFLAGS + ["-I" + REPO, "-I" + self.gen, "-I" + os.path.join(VERIF, "harness"),
                                    "-c", src, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("compilation of %s failed:\n%s" % (src, r.stderr[-4000:]))
        os.rename(tmp, obj)
        return obj

    def link(self, name, srcs, dirs=(), pbs=("base",), flags=False):
        """srcs: absolute main sources; dirs: repo directories; pbs: proto stems."""
        self.protoc()
        hk = sha(*[read(h) for h in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h")))])

        def attempt(dirs, pbs, flags):
            allsrc = list(srcs) + [os.path.join(REPO, s) for s in repo_sources(dirs)]
            pbmap = {"base": "base/base.pb.cc", "eval": "eval/eval.pb.cc", "traders": "traders/trader_config.pb.cc"}
            allsrc += [os.path.join(self.gen, pbmap[p]) for p in pbs]
            with cf.ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(lambda s: self.compile(s, hk if s.startswith(VERIF + "/harness") else ""), allsrc))
            exe = os.path.join(BUILD, "bin-%s-%s" % (name, sha(*objs)))
            if not os.path.exists(exe):
                tmp = "%s.%d-%d.tmp" % (exe, os.getpid(), threading.get_ident())
                r = subprocess.run(["g++", "-pthread", "-o", tmp] + objs +
                                   _pkg(["--libs"] + PKGS + (FLAG_PKGS if flags else [])), capture_output=True, text=True)
                if r.returncode:
                    return None, r.stderr[-4000:]
                os.rename(tmp, exe)
            return exe, ""

        exe, err = attempt(dirs, pbs, flags)
        if exe is None:      # the code may have grown a dependency on another directory
            exe, _ = attempt(library_dirs(), ("base", "eval", "traders"), True)
        if exe is None:
            raise CheckError("linking %s failed:\n%s" % (name, err))
        return exe


# -------------------------------------------------------------------- TLC --
class TlcResult:
    def __init__(self):
        self.ok = False            # no error found
        self.violated = None       # invariant / property name
        self.error = None          # other error text
        self.states = 0            # distinct
        self.generated = 0
        self.trace = []            # list of state texts
        self.out = ""
        self.wall = 0.0


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=600, extra=(), heap="6g", simulate=None):
    cfg = cfg or module + ".cfg"
    md = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + md, "-XX:TieredStopAtLevel=4", "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", os.path.join(SPECS, cfg)]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    r = TlcResult()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, cwd=md,
                         start_new_session=True)
    try:
        r.out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r.out, _ = p.communicate()
        r.error = "TLC timed out after %ds" % timeout
    r.wall = time.time() - t0
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.out.replace(",", ",").replace("\u00a0", ""))
    if not m:
        m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct", r.out)
    if m:
        r.generated, r.states = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    if "No error has been found" in r.out and p.returncode == 0:
        r.ok = True
        return r
    m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Property (\S+) is violated", r.out)
    if m:
        r.violated = next(g for g in m.groups() if g)
    elif simulate and p.returncode == 0 and not r.error:
        r.ok = True
        return r
    elif not r.error:
        i = r.out.find("Error:")
        r.error = r.out[i:i + 3000] if i >= 0 else "TLC failed (exit %s): %s" % (p.returncode, r.out[-1500:])
    r.trace = re.findall(r"^State \d+:.*?\n(.*?)(?=^State \d+:|^\d+ states generated|\Z)", r.out, re.S | re.M)
    return r


_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="verif-")
    return _SCRATCH


def cleanup():
    if _SCRATCH and os.path.isdir(_SCRATCH):
        shutil.rmtree(_SCRATCH, ignore_errors=True)


# ----------------------------------------------------------------- driver --
# Nothing the code computes may depend on the time zone of the process (an unknown zone means UTC).
ZONES = ["UTC", "America/New_York", "Asia/Kolkata", "EST5EDT,M3.2.0,M11.1.0", "Europe/London", "Pacific/Auckland", "IST-5:30", "America/Sao_Paulo"]


# Where each case ran last: what the same process had run before it.
_RAN = {}
_CONTEXT = False      # repeat a case after those that came before it in its process


def drive(exe, cases, text, tag="cases", env=None, case_timeout=40, shards=NCPU):
    """Runs the driver over `cases`; text(case) is the case body for the driver.
    Returns one observation dict per case; a crash / hang yields {"crash": why}."""
    if _CONTEXT and len(cases) == 1 and (exe, cases[0]["id"]) in _RAN:
        cs, txt, body, i, tag, env = _RAN[exe, cases[0]["id"]]
        return _drive(exe, cs[:i + 1], lambda c, m={id(c): t for c, t in zip(cs, txt)}: m[id(c)], tag, env, body, 1, False)[-1:]
    return _drive(exe, cases, text, tag, env, case_timeout, shards, True)


def _drive(exe, cases, text, tag, env, case_timeout, shards, note):
    obs = [None] * len(cases)
    n = max(1, min(shards, (len(cases) + 3) // 4))
    units = []                 # cases of one unit run one after another in one process
    for i, c in enumerate(cases):
        if i and c.get("unit") and c["unit"] == cases[i - 1].get("unit"):
            units[-1].append(i)
        else:
            units.append([i])
    groups = [[i for u in units[k::n] for i in u] for k in range(min(n, len(units)))]

    def work(gi):
        g = groups[gi]
        fn = os.path.join(scratch(), "%s-%d-%d.txt" % (tag, gi, random.randrange(1 << 30)))
        txt = [text(cases[i]) for i in g]
        with open(fn, "w") as f:
            for i, t in zip(g, txt):
                f.write("case %s\n%s\nend\n" % (cases[i]["id"], t))
        zone = cases[g[0]].get("tz", ZONES[gi % len(ZONES)])
        if note and len(cases) > 1:
            for k, i in enumerate(g):
                _RAN[exe, cases[i]["id"]] = ([cases[j] for j in g], txt, case_timeout, k, tag, env)
        for i in g:
            cases[i]["tz"] = zone
        start = 0
        while start < len(g):
            e = dict(os.environ)
            e["TZ"] = zone
            e.update(env or {})
            p = subprocess.Popen([exe, fn, str(start)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 env=e, cwd=scratch(), start_new_session=True)
            try:
                so, se = p.communicate(timeout=case_timeout * 4 + 0.05 * len(g))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                so, se = p.communicate()
            cur = None
            for line in so.decode("utf-8", "replace").split("\n"):
                if line.startswith("@"):
                    cur = int(line[1:])
                elif line.startswith("=") and cur is not None:
                    try:
                        obs[g[cur]] = json.loads(line[1:])
                    except ValueError:
                        raise CheckError("driver %s produced bad JSON: %s" % (exe, line[:300]))
                    start = cur + 1
                    cur = None
            if cur is not None:  # died inside case cur
                why = "timeout" if p.returncode in (-signal.SIGALRM, -signal.SIGKILL) else "signal %d" % -p.returncode \
                    if p.returncode < 0 else "exit %d" % p.returncode
                obs[g[cur]] = {"crash": why, "stderr": se.decode("utf-8", "replace")[-500:]}
                start = cur + 1
            elif start < len(g) and p.returncode != 0:
                raise CheckError("driver %s failed outside a case: rc=%s %s" % (exe, p.returncode, se[-500:]))
            elif start < len(g):
                raise CheckError("driver %s stopped early at %d/%d" % (exe, start, len(g)))
        os.unlink(fn)

    with cf.ThreadPoolExecutor(n) as ex:
        list(ex.map(work, range(n)))
    return obs


def write_ndjson(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")))
            f.write("\n")


# ------------------------------------------------------------ check object --
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (prop, seed))
        self.builder = Builder()
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "model": [], "trace_states": 0, "events_checked": 0}
        self.assumptions = []
        self.violations = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # design model: exhaustive check of the specification itself
    def model(self, module, cfg=None, env=None, timeout=600, simulate=None, workers=NCPU, extra=()):
        r = tlc(module, cfg, env, workers=workers, timeout=timeout, simulate=simulate, extra=extra)
        if not r.ok:
            raise CheckError("design model %s: %s %s\n%s" % (cfg or module, r.violated, r.error, r.out[-3000:]))
        self.cov["states"] += r.states
        self.cov["transitions"] += r.generated
        self.cov["model"].append({"module": module, "config": cfg or module + ".cfg", "distinct_states": r.states,
                                  "transitions": r.generated, "wall_s": round(r.wall, 1)})
        return r

    # conformance: validate observed cases against a trace specification
    def validate(self, module, rows, redo=None, chunk=4000, timeout=800, cfg=None, prop=None):
        """rows: merged case+observation dicts (with "id").  redo(row) re-runs the
        real code for that case and returns a fresh merged row (confirmation)."""
        global _CONTEXT
        for off in range(0, len(rows), chunk):
            part = rows[off:off + chunk]
            fn = os.path.join(scratch(), "trace-%d.ndjson" % off)
            write_ndjson(fn, part)
            r = tlc(module, cfg, {"TRACE_FILE": fn, "PROP": prop or self.prop}, timeout=timeout)
            self.cov["trace_states"] += r.states
            if r.ok:
                self.cov["traces_validated_against_impl"] += len(part)
                os.unlink(fn)
                continue
            if not r.violated:
                raise CheckError("trace validation by %s did not finish: %s" % (module, r.error))
            case_id, info = self.failing(r)
            row = next((x for x in part if str(x["id"]) == case_id), None)
            if row is None:
                raise CheckError("cannot locate failing case %r\n%s" % (case_id, r.out[:3000]))
            # Confirm: run the real code again on this case, validate it alone; should that be
            # accepted, run it again after the cases that preceded it in its process.
            for context in (False, True, True):
                _CONTEXT = context
                row2 = redo(row) if redo else row
                _CONTEXT = False
                fn2 = os.path.join(scratch(), "trace-confirm.ndjson")
                write_ndjson(fn2, [row2])
                r2 = tlc(module, cfg, {"TRACE_FILE": fn2, "PROP": prop or self.prop}, timeout=timeout, workers=1)
                if not r2.ok or not redo:
                    break
            if r2.ok:
                raise CheckError("a rejection by %s did not repeat (case %s):\n%s" % (module, case_id, info))
            if not r2.violated:
                raise CheckError("confirmation by %s failed: %s" % (module, r2.error))
            _, info2 = self.failing(r2)
            self.violation({"module": module, "case": row2, "diagnosis": info2,
                            "repeated": "after the preceding cases of its process" if context else "alone"})
            return False
        return True

    @staticmethod
    def failing(r):
        i = r.out.find("is violated")       # a violation in an initial state is printed without a numbered trace
        last = r.trace[-1] if r.trace else r.out[max(0, i):]
        m = re.search(r'case = "([^"]*)"', last) or re.search(r'case \|-> "([^"]*)"', last)
        return (m.group(1) if m else None), last.strip()[:6000]

    def violation(self, replay):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s.json" % self.prop)
        replay.update({"property": self.prop, "seed": self.seed, "tier": self.tier})
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        log("--- %s: %s" % (self.prop, replay.get("diagnosis", "")))
        log("VIOLATION property=%s replay=%s" % (self.prop, path))
        self.violations.append(path)

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            s = json.dumps(x)
            self.cov["samples"].append(x if len(s) < 4000 else s[:4000])

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        return 1 if self.violations else 0
