"""Common machinery of the checks: building, running, TLC, evidence, reports."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
REPLAY = os.path.join(VERIF, "replay")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
JOBS = max(2, min(8, os.cpu_count() or 2))

PYTHON_CFFI = "python3-vt"   # an interpreter with cffi

CXXFLAGS = ["-std=c++17", "-O1", "-g", "-w", "-D_GLIBCXX_ASSERTIONS", "-DCLINGODL_NO_VISIBILITY"]


class CheckError(Exception):
    """The check itself failed; says nothing about the property."""


class Violation(Exception):
    """The property is violated; files are stored for replaying."""

    def __init__(self, title, files):
        super().__init__(title)
        self.title = title
        self.files = files


# ------------------------------------------------------------------- building
def _files(root, exts):
    res = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                res.append(os.path.join(d, f))
    return sorted(res)


def _digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def sources(app):
    """The C++ sources of /repo making up the library (and the application)."""
    ext = (".cc", ".cpp", ".cxx")
    lib = _files(os.path.join(REPO, "libclingo-dl", "src"), ext)
    if app:
        lib += _files(os.path.join(REPO, "app", "lib", "src"), ext)
        lib += _files(os.path.join(REPO, "app", "src"), ext)
    return lib


def build(name, harness, app=False, flags=(), ldflags=()):
    """Build a harness from /repo's current working tree; cached by content."""
    inc = [os.path.join(REPO, "libclingo-dl")]
    if app:
        inc.append(os.path.join(REPO, "app", "lib"))
    hs = [os.path.join(VERIF, "harness", h) for h in harness]
    watch = []
    for d in ["libclingo-dl", "app"]:
        watch += _files(os.path.join(REPO, d), (".cc", ".hh", ".h", ".cpp", ".hpp", ".cxx", ".ipp"))
    watch = [f for f in watch if "/tests/" not in f]
    watch += _files(os.path.join(VERIF, "harness"), (".cc", ".hh"))
    key = _digest(watch, repr((name, harness, app, tuple(flags), tuple(ldflags), CXXFLAGS)))
    out = os.path.join(BUILD, name + "-" + key)
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe
    if os.path.isdir(BUILD):
        for old in os.listdir(BUILD):
            if old.startswith(name + "-") and ".tmp" not in old:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    srcs = sources(app) + hs
    objs = []
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, "%d-%s.o" % (i, os.path.basename(s)))
        objs.append(o)
        cmd = ["g++"] + CXXFLAGS + list(flags) + ["-I" + d for d in inc] + ["-c", s, "-o", o]
        jobs.append(cmd)

    def run(cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(jobs, ex.map(run, jobs)):
            if r.returncode != 0:
                raise CheckError("cannot compile: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    r = run(["g++"] + list(ldflags) + ["-o", os.path.join(tmp, name)] + objs + ["-lclingo", "-lpthread", "-ldl"])
    if r.returncode != 0:
        raise CheckError("cannot link %s\n%s" % (name, r.stdout[-3000:]))
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def build_package():
    """Build the Python package; returns the directory to import it from."""
    pkg = os.path.join(REPO, "libpyclingo-dl")
    watch = _files(os.path.join(REPO, "libclingo-dl"), (".cc", ".hh", ".h", ".cpp", ".hpp", ".cxx", ".ipp")) + _files(pkg, (".c", ".h", ".py"))
    watch = [f for f in watch if "/tests/" not in f]
    out = os.path.join(BUILD, "package-" + _digest(watch, repr(CXXFLAGS)))
    if os.path.exists(out):
        return out
    if os.path.isdir(BUILD):
        for old in os.listdir(BUILD):
            if old.startswith("package-") and ".tmp" not in old:
                shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    shutil.copytree(os.path.join(pkg, "clingodl"), os.path.join(tmp, "clingodl"), ignore=lambda d, fs: [f for f in fs if not f.endswith(".py")])

    def run(cmd):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    code = "import sysconfig as s; print(s.get_paths()['include']); print(s.get_config_var('EXT_SUFFIX'))"
    inc, suffix = run([PYTHON_CFFI, "-c", code]).stdout.split("\n")[:2]
    objs = []
    jobs = []
    for i, s in enumerate(sources(False) + _files(pkg, (".c",))):
        o = os.path.join(tmp, "%d.o" % i)
        objs.append(o)
        cc = ["gcc", "-w", "-O1", "-DCLINGODL_NO_VISIBILITY"] if s.endswith(".c") else ["g++"] + CXXFLAGS
        jobs.append(cc + ["-fPIC", "-I" + inc, "-I" + os.path.join(REPO, "libclingo-dl"), "-c", s, "-o", o])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for cmd, r in zip(jobs, ex.map(run, jobs)):
            if r.returncode != 0:
                raise CheckError("cannot compile: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    r = run(["g++", "-shared", "-o", os.path.join(tmp, "clingodl", "_clingodl" + suffix)] + objs + ["-lclingo", "-lpthread"])
    if r.returncode != 0:
        raise CheckError("cannot link the Python package\n%s" % r.stdout[-3000:])
    for o in objs:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ------------------------------------------------------------------- processes
def run(cmd, timeout, env=None, cwd=None, stdin=None):
    """Run a command in its own process group; returns (rc, out, timed out)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         env=env, cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        return p.returncode, out.decode(errors="replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return p.returncode, out.decode(errors="replace"), True


# ------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.ok = False
        self.states = 0
        self.distinct = 0
        self.depth = 0
        self.violations = []  # (trace id, event, violated)
        self.invariant = None
        self.deadlock = False
        self.deadlock_at = None
        self.output = ""


def tlc(module, cfg, env, work, workers=JOBS, timeout=600, extra=(), heap="6g"):
    """Run TLC on spec/<module>.tla; raises CheckError if TLC itself fails."""
    e = dict(os.environ)
    e.update(env)
    e["JAVA_TOOL_OPTIONS"] = ""
    meta = os.path.join(work, "tlc-%d-%d" % (os.getpid(), time.monotonic_ns()))
    os.makedirs(meta, exist_ok=True)
    tmpd = os.path.join(meta, "tmp")
    os.makedirs(tmpd, exist_ok=True)
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cp = jar
    d = os.path.dirname(jar)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != "tla2tools.jar":
            cp += ":" + os.path.join(d, f)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + tmpd,
           "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg] + list(extra) + [module + ".tla"]
    rc, out, to = run(cmd, timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.output = out
    if to:
        raise CheckError("TLC timed out on %s" % module)
    m = re.findall(r"(\d+) states generated(?: \(.*?\))?, (\d+) distinct states found", out)
    if m:
        r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The depth of the complete state graph search is (\d+)", out)
    if m:
        r.depth = int(m[-1])
    for m in re.finditer(r"/\\ trace = (\S+)\n/\\ event = (\d+)\n/\\ violated = (\{[^}\n]+\})", out):
        r.violations.append((m.group(1).strip('"'), int(m.group(2)), m.group(3)))
    m = re.search(r"Invariant (\S+) is violated", out)
    if m:
        r.invariant = m.group(1)
    m = re.search(r"property (\S+) (?:is|was) violated", out)
    if m and not r.invariant:
        r.invariant = m.group(1)
    if "Temporal properties were violated" in out:
        r.invariant = r.invariant or "temporal"
    if "Deadlock reached" in out:
        r.deadlock = True
        last = re.findall(r"/\\ trace = (\S+)\n/\\ event = (\d+)\n", out)
        if last:
            r.deadlock_at = (last[-1][0].strip('"'), int(last[-1][1]))
    if rc == 0:
        r.ok = True
        return r
    if r.invariant or r.deadlock or r.violations:
        return r
    last = re.findall(r"/\\ trace = (\S+)\n/\\ event = (\d+)\n", out)
    if last and "StackOverflow" not in out and "OutOfMemory" not in out and "Error:" in out:
        # values were recorded that the specification cannot interpret
        r.violations.append((last[-1][0].strip('"'), int(last[-1][1]) + 1, '{"malformed"}'))
        return r
    raise CheckError("TLC failed on %s (exit %d)\n%s" % (module, rc, tlc_excerpt(out)))


def tlc_excerpt(out, n=40):
    lines = [x for x in out.splitlines() if x.strip() and not x.startswith(("Parsing", "Semantic", "Linting", "Picked"))]
    for i, x in enumerate(lines):
        if x.startswith("Error:"):
            return "\n".join(lines[i:i + n])
    return "\n".join(lines[-n:])


# ------------------------------------------------------------------- reports
class Check:
    """Context of one run of a check."""

    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.start = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.known = [x for x in known_findings() if x["property"] == pid]
        self.hit = set()

    @property
    def quick(self):
        return self.tier != "thorough"

    def elapsed(self):
        return time.time() - self.start

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=3):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def tlc_stats(self, r):
        self.add("states", r.distinct)
        self.add("transitions", r.states)

    def evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
                       "level": self.level, "coverage": self.cov,
                       "wall_s": round(time.time() - self.start, 2)}, f, indent=1)
            f.write("\n")

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def is_known(self, sig):
        for k in self.known:
            if k["match"] == sig:
                if sig not in self.hit:
                    self.hit.add(sig)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return True
        return False

    def store(self, v):
        d = os.path.join(REPLAY, "%s-%d" % (self.pid, os.getpid()))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for name, text in v.files.items():
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s violated: %s\n" % (self.pid, v.title))
        return d


def known_findings():
    """Entries `known: property=<id> match=<signature> | <what fails>`."""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) match=(\S+) \| (.*)", line.strip())
            if m:
                res.append({"property": m.group(1), "match": m.group(2), "what": m.group(3)})
    return res


def main(pid, level, body):
    """Run a check; exit 0 if the property holds, 1 with a VIOLATION line otherwise."""
    c = Check(pid, level)
    try:
        body(c)
        c.evidence()
        print("%s: held on everything explored (%s, %.1fs): %s" % (
            pid, c.tier, c.elapsed(), json.dumps({k: v for k, v in c.cov.items() if not isinstance(v, (list, dict, str))})))
        return 0
    except Violation as v:
        d = c.store(v)
        c.cov["violation"] = v.title
        c.evidence()
        print("%s: %s" % (pid, v.title))
        print("VIOLATION property=%s replay=%s" % (pid, d))
        return 1
    except CheckError as e:
        print("check error: %s" % e, file=sys.stderr)
        return 2
    finally:
        c.cleanup()
