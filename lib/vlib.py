"""Shared machinery of the checks: building harnesses, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    """The check itself failed; says nothing about the library."""


def cpu_has(*flags):
    try:
        txt = open("/proc/cpuinfo").read()
    except OSError:
        return False
    m = re.search(r"^flags\s*:(.*)$", txt, re.M)
    have = set(m.group(1).split()) if m else set()
    return all(f in have for f in flags)


HWY = ["-DBITLIB_HWY"]
UB = ["-fsanitize=undefined", "-fsanitize-trap=undefined", "-fno-sanitize=alignment"]
AVX2 = ["-mavx2", "-mfma", "-mbmi", "-mbmi2", "-mlzcnt", "-mf16c", "-maes", "-mpclmul", "-mpopcnt"]
AVX2_CPU = ("avx2", "fma", "bmi1", "bmi2", "abm", "f16c", "aes", "pclmulqdq", "popcnt")
AVX512_CPU = AVX2_CPU + ("avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd")

# name: compiler, flags, libraries, CPU features needed, what it is
CONFIGS = {
    "scalar": (["g++", "-std=c++17", "-O1"], [], (), "g++ C++17 scalar, assertions on"),
    "hwy": (["g++", "-std=c++20", "-O1", "-DNDEBUG"] + HWY, ["-lhwy"], (), "g++ C++20 SIMD (SSE2), assertions off"),
    "avx2": (["g++", "-std=c++17", "-Og", "-DALT_WORDS"] + HWY + AVX2, ["-lhwy"], AVX2_CPU,
             "g++ C++17 SIMD (AVX2), -Og (aligned and unaligned stores stay apart), assertions on, words of char16_t, char32_t, unsigned long long"),
    "clang": (["clang++", "-std=c++20", "-O2", "-DALT_WORDS"], [], (), "clang++ C++20 scalar, -O2, assertions on, words of char16_t, char32_t, unsigned long long"),
    "native": (["g++", "-std=c++20", "-O2", "-march=native"] + HWY, ["-lhwy"], AVX512_CPU,
               "g++ C++20 SIMD (AVX-512), -O2, assertions on"),
    "asan": (["clang++", "-std=c++17", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"], [], (),
             "clang++ C++17 with AddressSanitizer"),
    "tsan": (["clang++", "-std=c++17", "-O1", "-fsanitize=thread", "-pthread"], [], (), "clang++ C++17 with ThreadSanitizer"),
    "tsanhwy": (["g++", "-std=c++20", "-O1", "-DNDEBUG", "-fsanitize=thread", "-pthread"] + HWY, ["-lhwy"], (),
                "g++ C++20 SIMD (SSE2), assertions off, with ThreadSanitizer"),
    "ubsan": (["clang++", "-std=c++17", "-O1"] + UB, [], (), "clang++ C++17 scalar, assertions on, traps at what is undefined"),
    "ubsanhwy": (["clang++", "-std=c++20", "-O1", "-DNDEBUG"] + UB + HWY, ["-lhwy"], (), "clang++ C++20 SIMD (SSE2), assertions off, traps at what is undefined"),
    "o0": (["g++", "-std=c++17", "-O0"], [], (), "g++ C++17 unoptimised, assertions on"),
}


def usable(cfgs):
    return [c for c in cfgs if cpu_has(*CONFIGS[c][2])]


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


class CompileFailed(Exception):
    def __init__(self, cfg, log):
        super().__init__(cfg)
        self.cfg, self.log = cfg, log


def compile_cpp(work, src, cfg, defs=(), name=None):
    cc, libs, _, _ = CONFIGS[cfg]
    exe = os.path.join(work, name or (os.path.basename(src).split(".")[0] + "-" + cfg))
    cmd = cc + ["-w", "-I", os.path.join(REPO, "include"), "-I", HARNESS] + list(defs) + [src, "-o", exe] + libs
    p = run(cmd, 600, cwd=work)
    if p.returncode != 0:
        # is it the library that no longer accepts this client, or is the
        # compiler unable to work?
        probe = os.path.join(work, "probe-%s.cpp" % cfg)
        with open(probe, "w") as f:
            f.write("#include <vector>\nint main() { std::vector<unsigned> v(3); return (int)v[0]; }\n")
        q = run(cc + ["-w", probe, "-o", probe + ".exe"] + libs, 300, cwd=work)
        if q.returncode != 0 or p.returncode < 0 or "Killed" in p.stderr or "No space" in p.stderr:
            raise Machinery("compiler does not work (%s): %s" % (cfg, p.stderr[-2000:]))
        raise CompileFailed(cfg, " ".join(cmd) + "\n" + p.stderr[:6000])
    return exe


class Tlc:
    """One TLC run."""

    def __init__(self, work, module, cfg_text=None, cfg_file=None, env=None, workers=1, timeout=800, heap="1500m", extra=()):
        self.meta = tempfile.mkdtemp(prefix="tlc", dir=work)
        if cfg_text is not None:
            cfg_file = os.path.join(self.meta, module + ".cfg")
            with open(cfg_file, "w") as f:
                f.write(cfg_text)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xms256m", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + self.meta,
               "-XX:TieredStopAtLevel=4", "-cp", JARS, "tlc2.TLC", "-metadir", self.meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-lncheck", "final"] + list(extra) + ["-config", cfg_file, os.path.join(SPEC, module + ".tla")]
        try:
            p = run(cmd, timeout, cwd=self.meta, env=e)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on " + module)
        self.out, self.err, self.rc = p.stdout, p.stderr, p.returncode
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in self.out
        shutil.rmtree(self.meta, ignore_errors=True)

    def printed(self, tag):
        """What PrintT(<<tag, ToJson(x)>>) printed."""
        return [json.loads(json.loads(m)) for m in re.findall(r'<<"%s", ("(?:[^"\\]|\\.)*")>>' % tag, self.out)]

    def rejected(self):
        """(line, event) of the first rejected event of a trace, or None"""
        m = re.search(r'<<\s*"REJECTED",\s*(\d+),\s*("(?:[^"\\]|\\.)*")\s*>>', self.out, re.S)
        if not m:
            return None
        return int(m.group(1)), m.group(2)

    def complain(self, what):
        raise Machinery("%s: TLC failed (exit %s)\n%s\n%s" % (what, self.rc, self.out[-3000:], self.err[-1000:]))


def model_check(work, module, cfg_text, workers=2, timeout=800, heap="3000m"):
    t = Tlc(work, module, cfg_text=cfg_text, workers=workers, timeout=timeout, heap=heap)
    if not t.ok:
        t.complain("model checking " + module)
    return t


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed, self.t0 = prop, tier, seed, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []   # (summary, replay dict)
        self.lock = threading.Lock()

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def phase(self, name):
        if os.environ.get("VERIF_DEBUG"):
            print("[%6.1f] %s" % (time.time() - self.t0, name), file=sys.stderr)

    def sample(self, x, limit=4):
        with self.lock:
            if len(self.cov["samples"]) < limit:
                self.cov["samples"].append(x)

    def violation(self, summary, replay):
        with self.lock:
            self.violations.append((summary, replay))

    def finish(self, known):
        """known: fingerprints of listed findings -> text"""
        new, seen = [], []
        for s, r in self.violations:
            (seen if r.get("fingerprint") in known else new).append((s, r))
        for s, r in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, known[r["fingerprint"]]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        if new:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (s, r) in enumerate(new[:5]):
                path = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(dict(r, property=self.prop, summary=s), f, indent=1)
                print("%s" % s)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s %.1fs %s" % (self.prop, time.time() - self.t0,
              {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 0


def load_known(prop):
    """fingerprint -> text, from known_findings.txt"""
    res = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) fingerprint=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return res


def parallel(fs, n=CORES):
    """Run the functions; re-raise the first exception."""
    with ThreadPoolExecutor(n) as ex:
        futs = [ex.submit(f) for f in fs]
        return [f.result() for f in futs]


# ---------------------------------------------------------------- trace checks

def run_harness(exe, args, out, timeout):
    """Runs a harness; returns None, or what went wrong with the process."""
    with open(out, "w") as f:
        try:
            p = subprocess.run([exe] + args, stdout=f, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            return ("died", "the process did not end in %d s" % timeout)
    if p.returncode == 0:
        return None
    if p.returncode == 3 and "harness: unexpected" not in p.stderr:
        raise Machinery("harness: %s" % p.stderr[-800:])
    if p.returncode in (-9, -15):
        raise Machinery("harness was killed: %s" % p.returncode)
    return ("died", "exit %d: %s" % (p.returncode, p.stderr[-1500:]))


def parse_lines(path):
    """sid, where, [events] of every complete line"""
    with open(path) as f:
        for line in f:
            if line.startswith("#") or not line.endswith("\n"):
                continue
            sid, where, js = line.rstrip("\n").split("\t")
            yield int(sid), where, js.split("\x1f")


def stats_of(path):
    with open(path, "rb") as f:
        f.seek(max(0, os.path.getsize(path) - 200))
        m = re.search(rb"#stats (\d+) (\d+)", f.read())
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def merge(files):
    """{sid: {outcome (tuple of event JSON): [config/where]}} over the configurations' outputs"""
    res = {}
    for cfg, path in files.items():
        for sid, where, evs in parse_lines(path):
            res.setdefault(sid, {}).setdefault(tuple(evs), []).append("%s[%s]" % (cfg, where))
    return res


def validate(work, module, cfg, events, timeout=800, heap="2000m", env=None):
    """Runs the trace spec over events (JSON strings); returns the Tlc object."""
    fd, path = tempfile.mkstemp(prefix="trace", suffix=".ndjson", dir=work)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(e)
            f.write("\n")
    t = Tlc(work, module, cfg_file=os.path.join(SPEC, cfg), env=dict(env or {}, TRACE=path), timeout=timeout, heap=heap)
    if not t.ok and t.rejected() is None:
        shutil.copy(path, "/tmp/bad-trace.ndjson")
        t.complain("validating a trace with " + module)
    os.unlink(path)
    return t


class TraceCheck:
    """Builds a harness in several configurations, runs its sessions sharded,
    and validates what they recorded against a trace specification."""

    def __init__(self, rep, work, src, defs, configs, module, cfg=None, args=(), run_timeout=700, cfg_defs=None, tag=""):
        self.rep, self.work, self.src, self.defs = rep, work, src, list(defs)
        self.configs = usable(configs)
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.args = list(args)
        self.run_timeout = run_timeout
        self.cfg_defs = cfg_defs or {}
        self.tag = tag
        self.exes = {}
        self.kept = []

    def build(self):
        def one(c):
            return c, compile_cpp(self.work, os.path.join(HARNESS, self.src), c, self.defs + self.cfg_defs.get(c, []),
                                  name=self.src.split(".")[0] + self.tag + "-" + c)
        self.rep.phase("building")
        try:
            self.exes = dict(parallel([lambda c=c: one(c) for c in self.configs]))
        except CompileFailed as e:
            self.rep.violation("a program that uses the public interface no longer compiles (%s)" % CONFIGS[e.cfg][3],
                               {"config": e.cfg, "log": e.log, "fingerprint": "compile"})
            return False
        self.rep.phase("built")
        return True

    def base_args(self):
        return ["--seed", str(self.rep.seed), "--tier", self.rep.tier] + self.args

    def shard(self, i, n):
        files = {}
        for c in self.configs:
            out = os.path.join(self.work, "out%s-%s-%d" % (self.tag, c, i))
            bad = run_harness(self.exes[c], self.base_args() + ["--shard", "%d/%d" % (i, n)], out, self.run_timeout)
            if bad:
                again = None
                for attempt in range(3):
                    again = again or run_harness(self.exes[c], self.base_args() + ["--shard", "%d/%d" % (i, n)], out, self.run_timeout)
                if not again:
                    raise Machinery("harness died once but not again: " + bad[1])
                last = None
                for last in parse_lines(out):
                    pass
                self.rep.violation("%s: the library destroyed the process that ran it: %s" % (c, again[1].strip()[-300:]),
                                   {"config": c, "args": self.base_args() + ["--shard", "%d/%d" % (i, n)],
                                    "last_completed": last, "fingerprint": "died"})
                return
            ex, calls = stats_of(out)
            self.rep.add(impl_executions=ex)
            files[c] = out
        self.rep.phase("shard %d ran" % i)
        merged = merge(files)
        for f in files.values():
            os.unlink(f)
        events, owner = [], []
        for sid in sorted(merged):
            for evs, where in merged[sid].items():
                events.extend(evs)
                owner.extend([(sid, evs, where)] * len(evs))
                self.rep.add(traces_validated_against_impl=1)
        if not events:
            return
        if i == 0:
            for k in (0, len(events) // 2, len(events) - 1):
                sid, evs, where = owner[k]
                txt = " ; ".join(evs)
                self.rep.sample({"session": sid, "recorded_in": where, "events": txt[:600]}, limit=8)
            for _, evs, _ in owner:
                if len(self.kept) < 1500 and (not self.kept or self.kept[-1] is not evs):
                    self.kept.append(evs)
        # chunks, so that one TLC run stays small; a chunk ends with a session
        pos = 0
        while pos < len(events):
            end, size = pos, 0
            while end < len(events) and end - pos < 60000 and size < 12e6:
                size += len(events[end])
                end += 1
            while end < len(events) and owner[end][1] is owner[end - 1][1]:
                end += 1
            t = validate(self.work, self.module, self.cfg, events[pos:end])
            self.rep.add(states=t.distinct, transitions=max(0, t.distinct - 1))
            self.rep.phase("shard %d validated %d events" % (i, end - pos))
            r = t.rejected()
            if r:
                k = pos + r[0] - 1
                sid, evs, where = owner[k]
                self.confirm(sid, evs, where, events[k], files)
                return
            pos = end

    def confirm(self, sid, evs, where, event, files):
        c = where[0].split("[")[0]
        out = os.path.join(self.work, "re%s-%s-%d" % (self.tag, c, sid))
        for attempt in range(5):
            run_harness(self.exes[c], self.base_args() + ["--only", str(sid)], out, self.run_timeout)
            for _, w2, evs2 in parse_lines(out):
                t = validate(self.work, self.module, self.cfg, evs2)
                r = t.rejected()
                if r:
                    e = evs2[r[0] - 1]
                    self.rep.violation("session %d, %s[%s]: not a behaviour of the specification: %s" % (sid, c, w2, e[:500]),
                                       {"harness": self.src, "defs": self.defs + self.cfg_defs.get(c, []), "config": c, "word_types": w2,
                                        "args": self.base_args() + ["--only", str(sid)], "session": list(evs2),
                                        "rejected_event": e, "seen_in": where, "module": self.module,
                                        "script": open(self.args[1]).read().splitlines()[sid] if self.args[0:1] == ["--script"] else None,
                                        "fingerprint": fingerprint(e)})
                    return
        # What is in the recording happened all the same (uninitialised memory, another schedule); only a
        # call that was cut off because it took long may be the fault of a busy machine.
        if json.loads(event)["x"] == "does not end":
            raise Machinery("a call took long once, but not when run again: session %d %s %s" % (sid, where, event[:400]))
        self.rep.violation("session %d, %s: not a behaviour of the specification (in one run; later runs differed): %s" % (sid, where[0], event[:500]),
                           {"harness": self.src, "defs": self.defs + self.cfg_defs.get(c, []), "config": c, "word_types": where[0],
                            "args": self.base_args() + ["--only", str(sid)], "session": list(evs), "rejected_event": event, "seen_in": where,
                            "module": self.module, "fingerprint": fingerprint(event)})

    def run(self, shards=CORES):
        parallel([lambda i=i: self.shard(i, shards) for i in range(shards)])


def fingerprint(event):
    try:
        e = json.loads(event)
        return "%s:%s" % (e.get("o"), json.dumps(e.get("a"), separators=(",", ":")))
    except ValueError:
        return "?"


def main(fn):
    """fn(report, work) does a check; exit code by what it found"""
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rep = Report(prop, tier, seed)
    try:
        fn(rep, work)
        return rep.finish(load_known(prop))
    except Machinery as e:
        print("ERROR of the check (no verdict on %s): %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR of the check (no verdict on %s)" % prop)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
