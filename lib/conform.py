"""Checks based on recorded runs of the real code validated against the specification."""
import concurrent.futures
import json
import os
import random

import sys

import genexh
import genfake
import genopt
import genreal
import genrw
import genterm
import vp


class Kind:
    """A harness together with the specification its traces are validated with."""

    def __init__(self, name, sources, module, removable, app=False, driver=(), flags=(), ldflags=()):
        self.name = name
        self.sources = sources
        self.module = module
        self.removable = removable
        self.app = app
        self.driver = list(driver)
        self.flags = flags
        self.ldflags = ldflags

    def build(self):
        return vp.build(self.name, self.sources, app=self.app, flags=self.flags, ldflags=self.ldflags)


# the propagator driven by a stand-in for the solver
FAKE = Kind("fake", ["fake.cc"], "PropTrace", ("d ", "D ", "a ", "f ", "b ", "share ", "forget ", "atom ", "stats", "root ", "other ", "rewrite ", "par", "rap"))
# the same started by the application with options from the command line
CLI = Kind("cli", ["fake.cc"], "PropTrace", FAKE.removable + ("opt ",), app=True,
           driver=[sys.executable, os.path.join(vp.VERIF, "lib", "clidrive.py")],
           flags=["-DFAKE_CLI"], ldflags=["-Wl,--wrap=clingodl_register"])
# programs run through the real clingo
REAL = Kind("real", ["real.cc"], "SolveTrace", ("conf ", "arg --", "threads ", "limit ", "mode ", "twin"))
# the application minimizing a variable
OPT = Kind("opt", ["opt.cc"], "OptTrace", ("arg --rand", "arg --seed", "arg --conf", "arg --prop", "arg --sort", "arg --add",
                                           "arg --dl", "arg -t", "arg --sign"),
           app=True, driver=[sys.executable, os.path.join(vp.VERIF, "lib", "optdrive.py")])
# programs passed through the rewriting of the library and of the application
REWRITE = Kind("rewrite", ["rewrite.cc"], "RewriteTrace", ("add ", "file"))
RWCLI = Kind("rwcli", ["rewrite.cc"], "RewriteTrace", REWRITE.removable, app=True,
             driver=[sys.executable, os.path.join(vp.VERIF, "lib", "rwdrive.py")],
             flags=["-DREWRITE_CLI"], ldflags=["-Wl,--wrap=clingo_program_builder_add"])


class Package(Kind):
    """Runs through the Python package."""

    def __init__(self, name, module, removable):
        Kind.__init__(self, name, [], module, removable,
                      driver=[vp.PYTHON_CFFI, "-B", os.path.join(vp.VERIF, "harness", "py", "pyreal.py")])

    def build(self):
        return vp.build_package()


# programs run through the Python package and its application
PY = Package("py", "SolveTrace", REAL.removable)
# configuration through the Python package
PYCONF = Package("pyconf", "PropTrace", ("conf ", "other ", "rewrite "))


def env_for(obs, trace):
    e = {"TRACE": trace}
    obs = list(obs)
    for i in range(9):
        e["OB%d" % (i + 1)] = obs[i] if i < len(obs) else "none"
    return e


def run_harness(kind, exe, scen, out, skip, timeout):
    return vp.run(kind.driver + [exe, scen, out, str(skip)], timeout)


def blocks(path):
    with open(path) as f:
        text = f.read()
    return [b + "end\n" for b in text.split("end\n") if b.strip()]


SINGLE = 30   # seconds for one scenario
BATCH = 120   # seconds for a batch


def crash(c, kind, exe, block, why, log, scen=None):
    """A run of the real code crashed or hung: confirm before reporting it."""
    one = os.path.join(c.work, "crash.txt")
    out = os.path.join(c.work, "crash.json")
    with open(one, "w") as f:
        f.write(block)
    for _ in range(3):
        if os.path.exists(out):
            os.unlink(out)
        rc, text, to = run_harness(kind, exe, one, out, 0, SINGLE)
        if rc != 0 or to:
            break
    if rc == 0 and not to and scen is not None:
        # the crash might depend on earlier scenarios
        if os.path.exists(out):
            os.unlink(out)
        rc, text, to = run_harness(kind, exe, scen, out, 0, BATCH)
        with open(scen) as f:
            block = f.read()
    if rc == 0 and not to:
        raise vp.CheckError("crash not reproducible: %s\n%s" % (why, log[-2000:]))
    if rc == 65 and "no fixpoint" not in text:
        raise vp.CheckError("harness error: %s" % text[-2000:])
    title = "the system " + ("does not terminate" if to or rc == 65 else "crashed (status %d)" % rc)
    raise vp.Violation(title, {"scenario.txt": block, "output.txt": text})


def record(c, kind, exe, scen, out):
    """Run all scenarios of a file; every crash is a violation."""
    if os.path.exists(out):
        os.unlink(out)
    rc, text, to = run_harness(kind, exe, scen, out, 0, BATCH)
    if rc == 0 and not to:
        return
    done = 0
    if os.path.exists(out):
        with open(out) as f:
            done = sum(1 for line in f if line.endswith("\n"))
    bs = blocks(scen)
    crash(c, kind, exe, bs[min(done, len(bs) - 1)], "status %s" % rc, text, scen)


def validate(c, kind, obs, trace, timeout=600):
    return vp.tlc(kind.module, kind.module + ".cfg", env_for(obs, trace), c.work, timeout=timeout)


def confirm(c, kind, exe, obs, block):
    """Re-run a single scenario; returns the TLC result and the trace."""
    one = os.path.join(c.work, "one.txt")
    out = os.path.join(c.work, "one.json")
    with open(one, "w") as f:
        f.write(block)
    if os.path.exists(out):
        os.unlink(out)
    rc, text, to = run_harness(kind, exe, one, out, 0, SINGLE)
    if rc != 0 or to:
        return None, ""
    with open(out) as f:
        trace = f.read()
    return vp.tlc(kind.module, kind.module + ".cfg", env_for(obs, out), c.work, workers=1, timeout=120), trace


def bad(r):
    return bool(r.violations) or r.deadlock or r.invariant is not None


KEEP = ("conf rdl", "conf compute-components", "conf shift-constraints")   # part of the meaning of a scenario


def shrink(c, kind, exe, obs, block, budget=25):
    """Remove schedule operations and constraints while the violation remains."""
    import time
    end = time.time() + budget
    lines = block.rstrip("\n").split("\n")

    def fails(ls):
        r, _ = confirm(c, kind, exe, obs, "\n".join(ls) + "\n")
        return r is not None and bool(r.violations)

    removable = kind.removable
    size = max(1, len(lines) // 2)
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(lines) and time.time() < end:
            cand = [x for j, x in enumerate(lines) if not (i <= j < i + size and x.startswith(removable) and not x.startswith(KEEP))]
            if len(cand) < len(lines) and fails(cand):
                lines = cand
            else:
                i += size
        size //= 2
    return "\n".join(lines) + "\n"


def report(c, kind, exe, obs, texts, label, trace, r):
    """Confirm and minimize a violation and raise it."""
    where = r.violations[-1] if r.violations else r.deadlock_at
    if where is None:
        raise vp.CheckError("cannot interpret the result of TLC\n" + vp.tlc_excerpt(r.output))
    tid = str(where[0])
    byid = {b.split("\n", 1)[0].split()[1]: b for b in texts}
    block = byid[tid] + "\n"
    recorded = ""
    with open(trace) as f:
        for line in f:
            if str(json.loads(line)["id"]) == tid:
                recorded = line
    again = None
    for _ in range(5):
        again, tr = confirm(c, kind, exe, obs, block)
        if again is None or bad(again):
            break
    if again is None:
        crash(c, kind, exe, block, "confirm", "")
    what = where[2] if len(where) > 2 else "trace is not a behaviour of the specification"
    title = "%s: %s at event %s" % (label, what, where[1])
    if not bad(again):
        # runs with several threads are not deterministic but recorded
        raise vp.Violation(title + " (recorded run)",
                           {"scenario.txt": block, "trace.json": recorded, "tlc.txt": vp.tlc_excerpt(r.output, 4000)})
    if again.violations:
        small = shrink(c, kind, exe, obs, block)
        r3, tr3 = confirm(c, kind, exe, obs, small)
        if r3 is not None and r3.violations:
            again, tr, block = r3, tr3, small
        x = again.violations[-1]
        title = "%s: obligation %s violated at event %d" % (label, x[2], x[1])
    raise vp.Violation(title, {"scenario.txt": block, "trace.json": tr, "tlc.txt": vp.tlc_excerpt(again.output, 4000)})


def batch(c, kind, obs, texts, label):
    """Run scenario texts (a list of blocks) on the real code and validate."""
    exe = kind.build()
    n = vp.JOBS
    parts = [texts[i::n] for i in range(n)]
    parts = [p for p in parts if p]
    files = []
    for i, p in enumerate(parts):
        s = os.path.join(c.work, "s%d.txt" % i)
        with open(s, "w") as f:
            f.write("\n".join(p) + "\n")
        files.append((s, os.path.join(c.work, "t%d.json" % i)))
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        list(ex.map(lambda f: record(c, kind, exe, f[0], f[1]), files))
    trace = os.path.join(c.work, "trace.json")
    count = 0
    with open(trace, "w") as f:
        for _, t in files:
            with open(t) as g:
                for line in g:
                    f.write(line)
                    count += 1
                    if count % 97 == 1:
                        x = json.loads(line)
                        c.sample({"trace": x["id"], "cfg": x["cfg"], "events": len(x["ev"]), "first": x["ev"][:2]})
    if count != len(texts):
        raise vp.CheckError("expected %d traces but got %d" % (len(texts), count))
    r = validate(c, kind, obs, trace)
    c.tlc_stats(r)
    if bad(r):
        report(c, kind, exe, obs, texts, label, trace, r)
    c.add("traces_validated_against_impl", count)


def generate(profile, seed, n, start=0):
    r = random.Random(seed)
    if isinstance(profile, genfake.Profile):
        return [genfake.scenario(r, start + i, profile) for i in range(n)]
    if isinstance(profile, genterm.TProfile):
        return [genterm.scenario(r, start + i, profile) for i in range(n)]
    if isinstance(profile, genrw.WProfile):
        return [genrw.program(r, start + i, profile) for i in range(n)]
    if isinstance(profile, genopt.OProfile):
        return [genopt.program(r, start + i, profile) for i in range(n)]
    return [genreal.program(r, start + i, profile) for i in range(n)]


EXHAUST = 1500   # seconds to visit all small systems in a thorough run


def explore(c, sources, quick_s, thorough_s):
    """Alternate between sources of traces until the time budget is used up.

    A source is (name, kind, obligations, profile, number of traces per batch).
    """
    for _, _, _, prof, _ in sources:
        if isinstance(prof, genexh.XProfile):
            prof.load(c.work)
    budget = quick_s if c.quick else thorough_s
    start = c.elapsed()
    i = 0
    used = {}
    while True:
        name, kind, obs, prof, n = sources[i % len(sources)]
        if isinstance(prof, genexh.XProfile):
            r = random.Random("%s-%d-%d" % (name, c.seed, i))
            at = used.get(name, 0) + 1009 * c.seed
            texts = [genexh.scenario(r, k, prof, at + k) for k in range(n)]
        else:
            texts = generate(prof, "%s-%d-%d" % (name, c.seed, i), n)
        batch(c, kind, obs, texts, name)
        used[name] = used.get(name, 0) + n
        i += 1
        if i >= len(sources) and c.elapsed() - start > budget:
            break
    if not c.quick:
        # visit all combinations of small systems and schedules
        for name, kind, obs, prof, n in sources:
            if not isinstance(prof, genexh.XProfile):
                continue
            start = c.elapsed()
            r = random.Random("%s-%d" % (name, c.seed))
            while used[name] < prof.total() and c.elapsed() - start < EXHAUST:
                at = used[name] + 1009 * c.seed
                n = min(200, prof.total() - used[name])
                batch(c, kind, obs, [genexh.scenario(r, k, prof, at + k) for k in range(n)], name)
                used[name] += n
    c.cov.setdefault("traces_by_source", {}).update(used)
    for name, _, _, prof, _ in sources:
        if isinstance(prof, genexh.XProfile):
            c.cov.setdefault("small_systems", {})[name] = {"combinations": prof.total(), "covered": min(prof.total(), used.get(name, 0))}
    c.cov["obligations_checked"] = sorted({kind.module + "." + o for _, kind, obs, _, _ in sources for o in obs})
