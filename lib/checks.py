"""The checks: one function for each claimed property."""
import conform
import vp
from genexh import XProfile
from genfake import Profile
from genopt import OProfile
from genreal import RProfile
from genrw import WProfile
from genterm import TProfile
from conform import CLI, FAKE, OPT, PY, PYCONF, REAL, REWRITE, RWCLI

MX = [(2, 100000), (3, 100000), (2, 10), (1, 100), (4, 1000), (3, 30), (2, 1)]


def F(name, obs, n=600, **kw):
    return (name, FAKE, obs, Profile(**kw), n)


def X(name, obs, n=80, **kw):
    return (name, FAKE, obs, XProfile(**kw), n)


def R(name, obs, n=400, **kw):
    return (name, REAL, obs, RProfile(**kw), n)


def L(name, obs, n=300, **kw):
    return (name, CLI, obs, Profile(options="cli", **kw), n)


def P(name, obs, n=120, **kw):
    return (name, PY, obs, RProfile(**kw), n)


def PC(name, obs, n=200, **kw):
    return (name, PYCONF, obs, Profile(options="api", **kw), n)


def T(name, obs, n=600, **kw):
    return (name, FAKE, obs, TProfile(**kw), n)


def O(name, obs, n=240, **kw):
    return (name, OPT, obs, OProfile(**kw), n)


def W(name, n=200, **kw):
    return (name, REWRITE, ["statement"], WProfile(**kw), n)


def A(name, n=100, **kw):
    return (name, RWCLI, ["read"], WProfile(cli=True, **kw), n)


LONG = dict(size="x", kinds=["chain", "chain", "random", "ring", "spt", "multi"], ops=(40, 100))
BIGR = dict(unit=30000000, jitter=1)
OSMALL = dict(nvars=(1, 3), natoms=(0, 2), heads=(0, 3), bodies=(0, 1), nderived=(0, 1), cons=(0, 1))
MULTI = dict(natoms=(1, 2), nderived=(0, 1), bodies=(0, 2), heads=(1, 3), steps=[2, 3])
THREADS = ["1", "2", "3", "4", "2,compete", "2,split", "3,split"]


def design(c, module, cfg, what, workers=8, timeout=600):
    """Exhaustive model checking of a specification."""
    r = vp.tlc(module, cfg, {}, c.work, workers=workers, timeout=timeout)
    c.tlc_stats(r)
    if not r.ok:
        raise vp.CheckError("%s does not hold in %s\n%s" % (what, module, vp.tlc_excerpt(r.output)))
    c.cov.setdefault("exhaustive", {})[cfg] = {"states": r.distinct, "depth": r.depth}


def theorems(c):
    """The notions computed from paths mean what they should for all small systems."""
    design(c, "Theorems", "TheoremsQ.cfg" if c.quick else "Theorems.cfg", "a theorem")


def algorithm(c):
    """Repairing potentials one constraint at a time gives canonical values."""
    design(c, "GraphAlg", "GraphAlg.cfg" if c.quick else "GraphAlgL.cfg", "the algorithm", timeout=1500)


def search(c):
    """Valid and prompt clauses are enough to enumerate the answer sets."""
    design(c, "SearchMC", "SearchMC.cfg" if c.quick else "SearchMCL.cfg", "enumeration", timeout=1500)


def c01(c):
    obs = ["sound", "known", "sat"]
    conform.explore(c, [
        R("programs", obs, steps=[1], solvemode=0.3),
        R("heads", obs, heads=(4, 9), bodies=(0, 1), nvars=(3, 6), natoms=(2, 4)),
        R("bodies", obs, bodies=(2, 4), heads=(0, 2), natoms=(0, 2)),
        R("threads", obs, threads=THREADS),
        R("multishot", obs, exts=0.4, assume=0.3, **MULTI),
        R("large", obs, 250, **BIGR),
        F("propagator", ["values", "prompt"], threads=[1, 2]),
    ], 40, 700)


def c02(c):
    obs = ["exact", "sat", "known"]
    search(c)
    conform.explore(c, [
        R("programs", obs),
        R("heads", obs, heads=(4, 9), bodies=(0, 1), nvars=(3, 6), natoms=(2, 4)),
        R("bodies", obs, bodies=(2, 4), heads=(0, 2), natoms=(0, 2)),
        R("tight", obs, nvars=(2, 3), weights=(-1, 1), heads=(3, 8), bodies=(1, 3)),
        R("stopped", obs, 250, limits=0.5, solvemode=0.6, exts=0.3, **MULTI),
        R("large", obs, 250, **BIGR),
        F("lemmas", ["lemma"], threads=[1, 2]),
    ], 40, 700)


def c03(c):
    obs = ["lemma"]
    theorems(c)
    conform.explore(c, [
        F("modes", obs, threads=[1, 2]),
        F("strong", obs, modes=["full", "zero", "partial+", "partial"], perthread=0.0, size="m"),
        F("zero", obs, modes=["zero"], perthread=0.0, kinds=["zero", "multi", "ties", "spt"], ops=(40, 80)),
        F("mutex", obs, mutex=MX, steps=[1, 2, 3]),
        F("multishot", obs, steps=[2, 3, 4], threads=[1, 2], rethread=0.3),
        F("rdl", obs, scale=4),
        F("large", obs, size="l", kinds=["dense", "diamond", "ring"], ops=(25, 50)),
        F("long", obs, 120, **LONG),
        F("bigweights", obs, 400, big=1.0, threads=[1, 2]),
        X("small", obs),
        X("smallmutex", obs, 60, mutex=MX[:3]),
    ], 40, 700)


def c04(c):
    obs = ["prompt"]
    algorithm(c)
    conform.explore(c, [
        F("modes", obs, threads=[1, 2]),
        F("plain", obs, modes=["no", "inverse"], kinds=["ring", "dense", "diamond", "random"], size="m"),
        F("multishot", obs, steps=[2, 3, 4], threads=[1, 2, 3], rethread=0.5),
        F("budget", obs, modes=["full", "zero", "no", "partial"], budgets=[1, 2, 5, 20], roots=[0, 1, 2]),
        F("large", obs, size="l", ops=(25, 50)),
        F("long", obs, 150, **LONG),
        F("steps", obs, 200, steps=[5, 6, 8], threads=[1, 2], rethread=0.3, size="m", ops=(8, 15)),
        F("rdl", obs, scale=4),
        F("bigweights", obs, 400, big=1.0),
        X("small", obs, 80, split=0.5),
        X("smallplain", obs, 60, modes=["no"], budgets=[0], roots=[0]),
    ], 40, 700)


def c05(c):
    obs = ["values"]
    algorithm(c)
    theorems(c)
    conform.explore(c, [
        F("modes", obs, threads=[1, 2]),
        F("backtrack", obs, ops=(40, 80), size="m"),
        F("multishot", obs, steps=[2, 3, 4], threads=[1, 2, 3], rethread=0.5),
        F("ties", obs, kinds=["ties", "zero", "diamond"]),
        F("updates", obs, kinds=["spt"], steps=[1], ops=(5, 15), loops=0.0),
        F("large", obs, size="l", ops=(25, 50)),
        F("long", obs, 150, **LONG),
        F("steps", obs, 200, steps=[5, 6, 8], threads=[1, 2], rethread=0.3, size="m", ops=(8, 15)),
        F("bigweights", obs, 400, big=1.0),
        R("solving", ["canon"], 300, heads=(2, 6), nvars=(2, 6)),
        R("multishot", ["canon"], 250, exts=0.3, threads=["1", "2"], **MULTI),
        X("small", obs),
    ], 40, 700)


def c06(c):
    obs = ["strength"]
    theorems(c)
    conform.explore(c, [
        F("full", obs, modes=["full"], perthread=0.0, roots=[0]),
        F("zero", obs, modes=["zero"], perthread=0.0, kinds=["zero", "multi", "random", "ties"]),
        F("inverse", obs, modes=["inverse", "partial", "partial+"], kinds=["dense", "random", "ties"]),
        F("root", obs, roots=[1, 2, 3, 5]),
        F("threads", obs, threads=[2, 3], perthread=0.8, steps=[1, 2, 3]),
        F("budget", obs, modes=["full", "zero", "no"], budgets=[0, 1, 3, 10, 100]),
        F("rdl", obs, scale=4, modes=["full", "zero", "inverse"]),
        F("bigweights", obs, 400, big=1.0, modes=["full", "zero", "inverse", "partial+"]),
        F("long", obs, 120, modes=["full", "zero", "inverse", "no"], **LONG),
        X("small", obs, modes=["inverse", "partial", "partial+", "zero", "full"], budgets=[0], split=0.5),
        X("smallroot", obs, 60, modes=["no"], budgets=[0], roots=[1, 2, 3]),
    ], 40, 700)


def c07(c):
    obs = ["mutex", "lemma"]
    conform.explore(c, [
        F("mutex", obs, 900, mutex=MX, steps=[1, 2, 3], ops=(2, 6), loops=0.1),
        F("dense", obs, 900, mutex=MX[:3], kinds=["dense", "ring", "ties"], steps=[1, 1, 2], ops=(1, 3)),
        F("zero", obs, 900, mutex=MX[:3], kinds=["zero", "multi"], steps=[1, 2], ops=(1, 3), cc=[0, 1]),
        F("bigweights", obs, 400, big=1.0, mutex=MX[:3], steps=[1, 2], ops=(1, 3)),
        X("small", obs, 150, mutex=MX[:3], modes=["no"], paths=4, split=0.5),
    ], 40, 700)


def c08(c):
    obs = ["exact", "sat", "sound", "known"]
    theorems(c)
    conform.explore(c, [
        R("relations", obs, nvars=(1, 2), weights=(-2, 2), heads=(1, 3), bodies=(1, 3), natoms=(0, 2), nderived=(0, 1), cons=(0, 1)),
        R("bodies", obs, nvars=(1, 2), weights=(-1, 1), heads=(0, 2), bodies=(2, 4), natoms=(0, 1), nderived=(0, 0), cons=(0, 0), named=1.0),
        R("facts", obs, nvars=(1, 3), weights=(-1, 2), heads=(2, 5), bodies=(1, 2), natoms=(1, 2), facts=0.8),
        R("loops", obs, nvars=(1, 2), weights=(-1, 1), heads=(1, 3), bodies=(1, 3), linear=0.8),
        R("multishot", obs, nvars=(1, 2), weights=(-1, 1), natoms=(0, 1), nderived=(0, 1), heads=(0, 2), bodies=(0, 2), steps=[2, 3], dupstep=0.5),
    ], 40, 700)


def c09(c):
    obs = ["accepted", "error", "values", "lemma", "prompt"]
    conform.explore(c, [
        T("terms", obs),
        T("shallow", obs, depth=(0, 2), wild=0.2, threads=[1, 2]),
        T("deep", obs, depth=(3, 6), wild=0.3),
        T("limits", obs, huge=1.0, depth=(0, 3)),
        T("corners", obs, 1500, corner=1.0, fancy=0.1),
        T("rejected", obs, wild=1.0, depth=(0, 2)),
        T("rdl", obs, scale=4),
        R("programs", ["exact", "sound", "known", "access"], terms=1.0, heads=(2, 5), nvars=(2, 4)),
        R("rdlprograms", ["exact", "sound", "known", "access"], 250, terms=1.0, rdl=True, scale=4),
    ], 40, 700)


def c10(c):
    obs = ["exact", "sat", "sound", "known", "access", "canon"]
    search(c)
    conform.explore(c, [
        R("multishot", obs, **MULTI),
        R("externals", obs, exts=0.8, **MULTI),
        R("assumptions", obs, assume=0.7, exts=0.3, **MULTI),
        R("threads", obs, threads=["1", "2", "3"], exts=0.3, **MULTI),
        R("steps", obs, 150, exts=0.2, **dict(MULTI, natoms=(0, 1), heads=(0, 2), steps=[4, 5, 6])),
        R("stopped", obs, 300, limits=0.5, solvemode=0.6, exts=0.3, assume=0.2, threads=["1", "1", "2"], **MULTI),
        F("propagator", ["values", "prompt", "lemma", "strength"], steps=[2, 3, 4], threads=[1, 2, 3], rethread=0.5),
    ], 40, 700)


def c11(c):
    obs = ["same", "exact", "sat"]
    conform.explore(c, [
        R("single", obs, 250, variants=4, same="values"),
        R("threads", obs, 250, variants=3, same="values", threads=["1", "2", "3"]),
        R("heads", obs, 250, variants=4, same="values", heads=(4, 9), bodies=(0, 1), nvars=(3, 6)),
        R("multishot", obs, 200, variants=3, same="atoms", exts=0.2, **MULTI),
        F("propagator", ["values", "prompt", "lemma"], mutex=[(0, 0)] + MX, threads=[1, 2], heur=[0, 1, 2], decide=0.3),
        X("small", ["values", "prompt", "lemma", "strength"], mutex=[(0, 0)] + MX[:3]),
    ], 40, 700)


def c12(c):
    obs = ["value", "improve", "known", "sound", "result", "optimum", "status", "error"]
    design(c, "OptimizerMC", "OptimizerMC.cfg" if c.quick else "OptimizerMC3.cfg", "minimization")
    conform.explore(c, [
        O("ladder", obs, ladder=(2, 6), **OSMALL),
        O("programs", obs, nvars=(2, 4), ladder=(0, 3)),
        O("steep", obs, ladder=(2, 5), stepw=(10, 60), factors=["1.5", "2", "3", "7.25"], **OSMALL),
        O("threads", obs, ladder=(2, 5), threads=THREADS, **OSMALL),
        O("initial", obs, ladder=(2, 5), initial=1.0, **OSMALL),
        O("limited", obs, 150, ladder=(2, 6), limit=1.0, nvars=(1, 4), natoms=(0, 4), cons=(0, 3), threads=["1", "1", "2"]),
        O("real", obs, 60, ladder=(1, 4), real=1.0, rels=["<=", ">="], missing=0, nvars=(1, 3), bodies=(0, 0)),
        O("large", obs, 150, ladder=(2, 5), stepw=(100000, 30000000), low=(0, 100000000), factors=["2", "3", "10", "1000"],
          initial=0.2, **OSMALL),
    ], 40, 700)


def c13(c):
    obs = ["perm", "temp", "lower", "opt", "error"]
    design(c, "OptimizerMC", "OptimizerMC.cfg" if c.quick else "OptimizerMC3.cfg", "minimization")
    conform.explore(c, [
        O("ladder", obs, ladder=(2, 6), factors=["1", "1.5", "2", "3"], **OSMALL),
        O("steep", obs, ladder=(2, 5), stepw=(10, 60), factors=["1.5", "2", "3", "7.25"], **OSMALL),
        O("initial", obs, ladder=(2, 5), initial=1.0, **OSMALL),
        O("programs", obs, nvars=(2, 4), ladder=(0, 3)),
        O("large", obs, 150, ladder=(2, 5), stepw=(100000, 30000000), low=(0, 100000000), factors=["2", "3", "10", "1000"],
          initial=0.2, **OSMALL),
    ], 40, 700)


def c14(c):
    obs = ["others", "values"]
    conform.explore(c, [
        F("threads", obs, threads=[2, 3, 4]),
        F("multishot", obs, threads=[2, 3], steps=[2, 3, 4], rethread=0.6),
        F("plain", obs, threads=[2, 3], modes=["no", "full"], perthread=0.6, ops=(40, 80)),
        F("interleaved", obs + ["lemma", "prompt", "strength"], threads=[2, 3, 4], par=1.0),
        F("interleavedsteps", obs + ["lemma", "prompt", "strength"], threads=[2, 3], par=0.8, steps=[2, 3, 4], rethread=0.5),
        F("interleavedrdl", obs + ["lemma", "prompt", "strength"], 300, threads=[2, 3], par=1.0, scale=4),
        R("solving", ["exact", "sound", "known", "sat", "access"], threads=THREADS[1:], solvemode=0.4),
    ], 40, 700)


def c15(c):
    obs = ["conf", "mode", "sort", "strength", "decide", "mutex", "values", "stats", "error"]
    kw = dict(heur=[0, 1, 2], decide=0.3, threads=[1, 2, 3], stats=True)
    conform.explore(c, [
        F("api", obs, options="api", **kw),
        F("modes", obs, options="api", modes=["no", "inverse", "full", "partial"], roots=[0, 0, 1, 3], budgets=[0], **kw),
        F("sorting", obs, options="api", modes=["inverse"], roots=[0], budgets=[0], perthread=0.0, kinds=["pairs"],
          strict=0.0, batch=0.9, sorts=["potential", "potential-reversed", "weight", "weight-reversed"], threads=[1, 2]),
        F("rdl", obs, options="api", scale=4, **kw),
        R("instances", ["exact", "same", "canon"], 250, twin=1.0, variants=1, same="atoms", exts=0.2, **MULTI),
        L("cli", obs, **kw),
        L("rdlcli", obs, 150, scale=4, **kw),
    ], 40, 700)


def c16(c):
    obs = ["sets", "sat"]
    conform.explore(c, [
        R("shift", obs, 500, shift=True),
        R("constraints", obs, 500, shift=True, heads=(2, 6), cons=(0, 2), nvars=(1, 3), weights=(-2, 2)),
        R("multishot", obs, 300, shift=True, **MULTI),
    ], 40, 700)


def c17(c):
    obs = ["access"]
    conform.explore(c, [
        R("programs", obs, fancy=0.6, solvemode=0.5),
        R("multishot", obs, exts=0.3, solvemode=0.5, limits=0.2, **MULTI),
        R("threads", obs, threads=THREADS, solvemode=0.5),
        R("rdl", obs, rdl=True, scale=4),
    ], 40, 700)


def c18(c):
    obs = ["stats"]
    conform.explore(c, [
        F("stats", obs, stats=True, threads=[1, 2, 3], mutex=[(0, 0), (2, 100000), (3, 100)]),
        F("multishot", obs, stats=True, steps=[2, 3, 4], threads=[1, 2, 3], rethread=0.6, mutex=[(0, 0), (2, 100000)]),
        F("plain", obs, stats=True, modes=["no"], roots=[0], budgets=[0], perthread=0.0, threads=[1, 2]),
        F("interleaved", obs, 300, stats=True, threads=[2, 3, 4], par=1.0),
        X("small", obs, stats=True, mutex=[(0, 0)] + MX[:3]),
        F("long", obs, 120, stats=True, **LONG),
        F("steps", obs, 200, stats=True, steps=[5, 6, 8], threads=[1, 2, 4], rethread=0.4, size="m", ops=(5, 10)),
    ], 40, 700)


def c19(c):
    obs = ["decide"]
    conform.explore(c, [
        F("decide", obs, heur=[1, 2], decide=0.8),
        F("off", obs, heur=[0, 1, 2], decide=0.5, threads=[1, 2]),
        F("multi", obs, heur=[1, 2], decide=0.8, kinds=["multi", "zero", "ties"], steps=[1, 2, 3]),
        F("rdl", obs, heur=[1, 2], decide=0.8, scale=4),
    ], 40, 700)


def c20(c):
    obs = ["lemma", "prompt", "values", "strength"]
    conform.explore(c, [
        F("rdl4", obs, scale=4, threads=[1, 2]),
        F("rdl8", obs, scale=8, size="m", steps=[1, 2, 3]),
        F("rdl2", obs, scale=2, kinds=["ties", "diamond", "ring"]),
        R("programs", ["exact", "sound", "known", "sat", "access", "canon"], rdl=True, scale=4),
        R("variants", ["exact", "same"], 250, rdl=True, scale=2, variants=3, same="values"),
        R("strict", ["exact", "sound", "known", "sat"], rdl=True, strict=True, scale=100000, unit=25000,
          weights=(-8, 8), nvars=(1, 3), heads=(1, 4)),
    ], 40, 700)


def c21(c):
    obs = ["values", "lemma", "stats", "prompt"]
    theorems(c)
    conform.explore(c, [
        F("components", obs, kinds=["multi", "zero"], stats=True, steps=[1, 2, 3], cc=[1]),
        F("single", obs, kinds=["multi", "zero"], stats=True, cc=[0, 1]),
        F("zero", obs, kinds=["multi", "zero"], modes=["zero", "full", "partial+"], cc=[1], steps=[1, 2, 3, 4]),
        R("solving", ["canon", "exact"], 300, nvars=(4, 7), natoms=(2, 4), heads=(3, 7), bodies=(0, 1), cc=[1]),
        X("small", obs, modes=["no", "zero", "full"], stats=True, cfg="Schedules3.cfg", plain=True, cc=[1]),
    ], 40, 700)


def c23(c):
    obs = ["sat", "sound", "known", "exact", "access", "canon", "stat"]
    conform.explore(c, [
        P("programs", obs, fancy=0.4, solvemode=0.4),
        P("multishot", obs, exts=0.4, assume=0.3, solvemode=0.4, limits=0.2, **MULTI),
        P("threads", obs, 60, threads=["1", "2", "3"], **MULTI),
        P("rdl", ["sat", "sound", "access", "stat"], rdl=True, scale=4),
        P("shift", ["sat", "sets", "access"], shift=True),
        P("instances", ["exact", "same", "access"], 60, twin=1.0, variants=1, same="atoms", exts=0.2, **MULTI),
        P("application", ["sat", "sound", "known", "exact", "canon", "stat"], 80, app=True, threads=["1", "1", "2"], fancy=0.5),
        PC("options", ["conf"], threads=[1]),
    ], 40, 700)


def c22(c):
    conform.explore(c, [
        W("statements"),
        W("shift", shift=1.0, integrity=0.7, diffs=0.85),
        W("broken", 150, broken=0.5, pools=0.1, diffs=0.9, symbolic=0.5),
        W("pools", 100, pools=0.5, count=(3, 6)),
        A("application", files=0.3, broken=0.03),
        A("appshift", shift=1.0, integrity=0.7, diffs=0.85, broken=0.03),
    ], 40, 700)


CHECKS = {
    "C01": (c01, "model_checking"),
    "C02": (c02, "model_checking"),
    "C03": (c03, "model_checking"),
    "C04": (c04, "model_checking"),
    "C05": (c05, "model_checking"),
    "C06": (c06, "model_checking"),
    "C07": (c07, "model_checking"),
    "C08": (c08, "model_checking"),
    "C09": (c09, "model_checking"),
    "C10": (c10, "model_checking"),
    "C11": (c11, "model_checking"),
    "C12": (c12, "model_checking"),
    "C13": (c13, "model_checking"),
    "C14": (c14, "model_checking"),
    "C15": (c15, "model_checking"),
    "C16": (c16, "model_checking"),
    "C17": (c17, "model_checking"),
    "C18": (c18, "model_checking"),
    "C19": (c19, "model_checking"),
    "C20": (c20, "model_checking"),
    "C21": (c21, "model_checking"),
    "C22": (c22, "model_checking"),
    "C23": (c23, "model_checking"),
}


def run(pid):
    body, level = CHECKS[pid]
    return vp.main(pid, level, body)


def prebuild():
    FAKE.build()
    REAL.build()
    OPT.build()
    CLI.build()
    REWRITE.build()
    RWCLI.build()
    PY.build()
    return 0
