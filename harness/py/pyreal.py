"""Runs the scenarios of the real-solver harness through the Python package.

Usage: pyreal.py PACKAGE SCENARIOS OUT [SKIP]

PACKAGE is the directory with the package clingodl including its extension
module built from the sources. Records the same events as harness/real.cc.
"""
import json
import math
import os
import subprocess
import sys
import tempfile
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.abspath(sys.argv[1]))

from clingo import ast  # noqa: E402
from clingo.control import Control  # noqa: E402
from clingo.symbol import Number, SymbolType, parse_term  # noqa: E402
from clingodl import ClingoDLTheory  # noqa: E402

SAT, UNSAT = 1, 2


class Trace:
    def __init__(self):
        self.id = "0"
        self.cfg = "{}"
        self.vars = {}
        self.varsyms = []
        self.atoms = {}
        self.probes = []
        self.scale = 1

    def var(self, s):
        return self.vars.get(str(s), -1)

    def number(self, v):
        if isinstance(v, (int, float)):
            x = v * self.scale
            if self.scale >= 1000 and abs(x - round(x)) < 0.01:
                x = round(x)
            return int(x) if math.isfinite(x) and x == math.floor(x) and abs(x) <= 2e9 else 1999999999
        if v.type == SymbolType.Number:
            return self.number(v.number)
        if v.type == SymbolType.String:
            try:
                return self.number(float(v.string))
            except ValueError:
                pass
        return 1999999997

    def shown(self, syms):
        return [self.atoms.get(str(s), -1) for s in syms if not s.match("dl", 2)]

    def dl(self, syms):
        return [[self.var(s.arguments[0]), self.number(s.arguments[1])] if s.match("dl", 2) else [-3, 0] for s in syms]


class Run:
    def __init__(self, tr):
        self.tr = tr
        self.theory = ClingoDLTheory()
        self.ctl = None
        self.args = []
        self.ev = [{"k": "run"}]
        self.failed = False
        self.models = []
        self.limit = 0
        self.mode = "call"
        self.lock = threading.Lock()

    def start(self):
        if self.ctl is None:
            self.ctl = Control(self.args)
            self.theory.register(self.ctl)

    def on_model(self, m):
        tr, th = self.tr, self.theory
        with self.lock:
            th.on_model(m)
            tid = m.thread_id
            it = [[tr.var(s), tr.number(v)] for s, v in th.assignment(tid)]
            it += [[-2, 0] for i in th.indices(tid) if not th.has_value(tid, i)]
            lk, ix = [], []
            for x, s in tr.varsyms:
                i = th.lookup_symbol(s)
                if i is None:
                    continue
                ix.append([x, i, tr.var(th.get_symbol(i))])
                if th.has_value(tid, i):
                    lk.append([x, tr.number(th.get_value(tid, i))])
            pr = 0
            for s in tr.probes:
                i = th.lookup_symbol(s)
                if i is not None and (s != Number(0) or th.has_value(tid, i)):
                    pr = 1
            self.models.append({"at": tr.shown(m.symbols(shown=True)), "dl": tr.dl(m.symbols(theory=True)),
                                "it": it, "lk": lk, "ix": ix, "pr": pr})
            return self.mode == "yield" or self.limit == 0 or len(self.models) < self.limit

    def step(self, op, arg):
        words = arg.split()
        if op == "conf":
            self.theory.configure(words[0], words[1] if len(words) > 1 else "")
        elif op == "arg":
            self.args.append(arg)
        elif op == "add":
            self.start()
            with ast.ProgramBuilder(self.ctl) as b:
                ast.parse_string(arg, lambda stm: self.theory.rewrite_ast(stm, b.add))
        elif op == "ground":
            self.start()
            self.ctl.ground([(arg, [])])
        elif op == "threads":
            self.start()
            self.ctl.set_parallel_mode(arg)
        elif op == "limit":
            self.limit = int(arg)
        elif op == "mode":
            self.mode = arg
        elif op == "ext":
            lit = self.ctl.literal(parse_term(words[0]))
            if lit != 0:
                if words[1] == "release":
                    self.ctl.release_external(lit)
                else:
                    self.ctl.assign_external(lit, words[1])
        elif op == "solve":
            self.solve(words)
        else:
            sys.stderr.write("unknown op %s\n" % op)
            os._exit(65)

    def solve(self, words):
        self.start()
        tr = self.tr
        lits, pos, neg = [], [], []
        for a in words:
            s = parse_term(a.lstrip("-"))
            lit = self.ctl.literal(s)
            if lit == 0:
                continue
            lits.append(-lit if a[0] == "-" else lit)
            (neg if a[0] == "-" else pos).append(tr.atoms[str(s)])
        if lits:
            self.ev.append({"k": "asm", "pos": pos, "neg": neg})
        self.models = []
        self.theory.prepare(self.ctl)
        yields = []
        stopped = False
        if self.mode == "call":
            ret = self.ctl.solve(lits, self.on_model, self.theory.on_statistics)
        else:
            with self.ctl.solve(lits, self.on_model, self.theory.on_statistics, self.mode == "async", self.mode == "yield") as h:
                if self.mode == "yield":
                    for m in h:
                        yields.append({"dl": tr.dl(m.symbols(theory=True)),
                                       "it": [[tr.var(s), tr.number(v)] for s, v in self.theory.assignment(m.thread_id)]})
                        if self.limit > 0 and len(self.models) >= self.limit:
                            stopped = True
                            break
                if stopped:
                    h.cancel()
                    ret = SAT
                else:
                    ret = h.get()
        stopped = stopped or self.limit > 0 and len(self.models) >= self.limit
        self.ev.append({"k": "solve", "sat": int(ret & SAT > 0), "unsat": int(ret & UNSAT > 0), "lim": self.limit if stopped else 0,
                        "models": self.models, "yd": yields})
        self.limit = 0
        found = [self.ctl.statistics(x, "DifferenceLogic", y) is not None for x in ("user_step", "user_accu") for y in ("CCs", "Mutexes", "Edges", "Variables")]
        self.ev.append({"k": "stat", "found": int(all(found))})

    def line(self, op, arg):
        if self.failed:
            return
        if op == "ev":
            self.ev.append(json.loads(arg))
            return
        try:
            self.step(op, arg)
        except Exception as e:  # pylint: disable=broad-except
            self.ev.append({"k": "err", "op": op, "msg": str(e)})
            self.failed = True


def application(tr, lines):
    """Run a program through the application of the package."""
    ev = [{"k": "run"}]
    args = []
    text = ""
    for op, arg in lines:
        if op == "arg":
            args.append(arg)
        elif op == "conf":
            k, v = arg.split()
            if k in ("rdl", "shift-constraints", "compute-components"):
                args.append("--%s%s" % ("" if v == "yes" else "no-", k))
            else:
                args.append("--%s=%s" % (k, v))
        elif op == "threads":
            args.append("-t%s" % arg)
        elif op == "add":
            text += arg + "\n"
        elif op == "ev":
            ev.append(json.loads(arg))
    fd, name = tempfile.mkstemp(suffix=".lp", dir=os.path.dirname(os.path.abspath(sys.argv[3])))
    with os.fdopen(fd, "w") as f:
        f.write(text)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=":".join(sys.path[:2]))
    # Note: without verbosity, only the application prints while solving
    p = subprocess.run([sys.executable, "-m", "clingodl", name, "-V0", "--stats"] + args, env=env, text=True, timeout=25,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    os.unlink(name)
    out = p.stdout.split("\n")
    models = []
    for i, x in enumerate(out):
        if x == "Assignment:":
            at = [tr.atoms.get(str(parse_term(y)), -1) for y in out[i - 1].split()]
            dl = []
            for y in out[i + 1].split():
                u, v = y.rsplit("=", 1)
                dl.append([tr.var(parse_term(u)), tr.number(parse_term(v))])
            models.append({"at": at, "dl": dl, "it": dl, "lk": dl, "ix": [], "pr": 0})
    if p.returncode in (10, 20, 30):
        ev.append({"k": "solve", "sat": int(p.returncode != 20), "unsat": int(p.returncode == 20), "lim": 0, "models": models, "yd": []})
        ev.append({"k": "stat", "found": int("DifferenceLogic" in p.stdout)})
    else:
        ev.append({"k": "err", "op": "app", "msg": p.stderr[-300:]})
    return ev


def options(lines):
    """Create instances and configure them."""
    inst = {}
    ev = []
    for op, _, arg in (x.partition(" ") for x in lines):
        if op == "order":
            for i in arg:
                inst[int(i)] = ClingoDLTheory()
        elif op in ("conf", "other"):
            i = 0
            if op == "other":
                i, _, arg = arg.partition(" ")
            k, _, v = arg.partition(" ")
            msg = None
            try:
                inst[int(i)].configure(k, v)
            except Exception as e:  # pylint: disable=broad-except
                msg = str(e)
            ev.append({"k": "cf", "i": int(i), "key": k, "v": v, "ok": int(msg is None), "named": int(msg is not None and k in msg)})
        elif op == "rewrite":
            ctl = Control()
            stms = []
            with ast.ProgramBuilder(ctl) as b:
                def add(stm):
                    stms.append(str(stm))
                    b.add(stm)
                ast.parse_string(":- not &diff { x-y } <= 1.", lambda stm: inst[int(arg)].rewrite_ast(stm, add))
            ev.append({"k": "rw", "i": int(arg), "sh": int("__diff_h" in " ".join(stms))})
    return ev


def run_trace(lines, out):
    tr = Trace()
    if any(x.startswith("order ") for x in lines):
        tr.id = next(x for x in lines if x.startswith("trace ")).split()[1]
        tr.cfg = next(x for x in lines if x.startswith("cfg ")).split(" ", 1)[1]
        out.write('{"id":%s,"cfg":%s,"ev":%s}\n' % (tr.id, tr.cfg, json.dumps(options(lines), separators=(",", ":"))))
        out.flush()
        return
    todo = []
    twin = app = False
    for line in lines:
        op, _, arg = line.partition(" ")
        if op == "trace":
            tr.id = arg
        elif op == "cfg":
            tr.cfg = arg
        elif op == "scale":
            tr.scale = int(arg)
        elif op == "var":
            x, n = arg.split(" ", 1)
            s = parse_term(n)
            tr.vars[str(s)] = int(x)
            tr.varsyms.append((int(x), s))
        elif op == "atom":
            x, n = arg.split(" ", 1)
            tr.atoms[str(parse_term(n))] = int(x)
        elif op == "probe":
            tr.probes.append(parse_term(arg))
        elif op == "twin":
            twin = True
        elif op == "app":
            app = True
        elif op == "run":
            todo.append([])
        else:
            todo[-1].append((op, arg))
    ev = []
    if app:
        for x in todo:
            ev += application(tr, x)
    elif twin:
        runs = [Run(tr) for x in todo]
        for k in range(max(len(x) for x in todo)):
            for r, x in zip(runs, todo):
                if k < len(x):
                    r.line(*x[k])
        for r in runs:
            ev += r.ev
    else:
        for x in todo:
            r = Run(tr)
            for y in x:
                r.line(*y)
            ev += r.ev
    out.write('{"id":%s,"cfg":%s,"ev":%s}\n' % (tr.id, tr.cfg, json.dumps(ev, separators=(",", ":"))))
    out.flush()


def main():
    skip = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    with open(sys.argv[2]) as f, open(sys.argv[3], "a") as out:
        lines = []
        n = 0
        for line in f:
            line = line.rstrip("\n")
            if line == "end":
                if n >= skip:
                    run_trace(lines, out)
                n += 1
                lines = []
            else:
                lines.append(line)


main()
