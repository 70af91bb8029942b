"""Scenarios for all small systems of constraints and all schedules given by module Schedules."""
import json
import os

import genfake
import vp


class XProfile:
    """Systems and schedules computed by TLC for a configuration of module Schedules."""

    def __init__(self, cfg="Schedules.cfg", **kw):
        self.cfg = cfg
        self.modes = genfake.MODES
        self.roots = [0, 0, 0, 1, 2]
        self.budgets = [0, 0, 0, 1, 3]
        self.mutex = [(0, 0)]
        self.heur = [0]
        self.paths = 60
        self.split = 0.3
        self.strict = 0.2
        self.cc = [1, 1, 1, 0]
        self.stats = False
        self.plain = False       # only distinct literals
        for k, v in kw.items():
            if not hasattr(self, k):
                raise ValueError(k)
            setattr(self, k, v)
        self.systems = None

    def load(self, work):
        if self.systems is not None:
            return
        out = os.path.join(work, "schedules")
        os.makedirs(out, exist_ok=True)
        r = vp.tlc("Schedules", self.cfg, {"OUT": out}, work, workers=1, timeout=600)
        if not r.ok:
            raise vp.CheckError("cannot compute schedules\n" + vp.tlc_excerpt(r.output))
        with open(os.path.join(out, "systems.json")) as f:
            self.systems = [json.loads(x)["e"] for x in f]
        with open(os.path.join(out, "schedules.json")) as f:
            self.schedules = [json.loads(x) for x in f]
        if self.plain:
            self.schedules = [s for s in self.schedules if s["l"] == list(range(2, len(s["l"]) + 2))]

    def total(self):
        return len(self.systems) * len(self.schedules) * len(self.modes)

    def combination(self, i):
        """The ith combination in a fixed order visiting each of them once."""
        n = self.total()
        step = 7919
        while n % step == 0:
            step += 2
        i = i * step % n
        # the step has to be coprime to the total
        i, m = divmod(i, len(self.modes))
        i, s = divmod(i, len(self.schedules))
        return self.systems[i], self.schedules[s], self.modes[m]


def ops(p, r, sch):
    """The operations of all schedules (or a sample if there are too many)."""
    paths = []
    for s in sch["leaves"]:
        paths.append(["d 0 %s" % " ".join(map(str, x)) for x in s])
    for s in sch["batches"]:
        paths.append(["d 0 %s" % " ".join(map(str, x)) for x in s])
    for s in sch["detours"]:
        paths.append(["d 0 %s" % " ".join(map(str, x)) for x in s["up"]] + ["b 0 %d" % s["to"]]
                     + ["d 0 %s" % " ".join(map(str, x)) for x in s["down"][s["to"]:]])
    r.shuffle(paths)
    res = []
    for s in paths[:p.paths]:
        res += s + ["forget 0"]
    return res


def scenario(r, tid, p, i):
    es, sch, mode = p.combination(i)
    lits = sch["l"]
    out = ["trace %d" % tid]
    root, budget = r.choice(p.roots), r.choice(p.budgets)
    out.append("conf propagate " + mode)
    if root:
        out.append("conf propagate-root %d" % root)
    if budget:
        out.append("conf propagate-budget %d" % budget)
    out.append("conf sort-edges " + r.choice(genfake.SORTS))
    mx = r.choice(p.mutex)
    if mx != (0, 0):
        out.append("conf add-mutexes %d,%d" % mx)
    heur = r.choice(p.heur)
    if heur:
        out.append("conf dl-heuristic " + ["no", "min", "max"][heur])
    cc = r.choice(p.cc)
    if not cc:
        out.append("conf compute-components no")
    n = genfake.MAXT
    out.append("cfg " + json.dumps({"mode": [genfake.MODES.index(mode)] * n, "root": [root] * n, "budget": [budget] * n,
                                    "cc": cc, "heur": heur, "mxs": mx[0], "mxc": mx[1]}, separators=(",", ":")))
    out += ["seed %d" % r.randint(1, 10**9), "pol %d %d" % (r.choice([0, 0, 30, 100]), r.choice([0, 1]))]
    names = {0: "0"}
    for x in range(1, max(max(e[0], e[1]) for e in es) + 1):
        names[x] = "v%d" % x
        out.append("var %d v%d" % (x, x))
    out.append("threads 1")
    # constraints in some order of introduction
    order = list(range(len(es)))
    r.shuffle(order)
    cut = r.randint(1, len(es) - 1) if len(es) > 1 and r.random() < p.split else len(es)
    steps = [order[:cut], order[cut:]] if cut < len(es) else [order]
    strict = r.random() < p.strict
    for step in steps:
        nsv = max([1] + [abs(lits[j]) for j in (order if step is steps[-1] else step)])
        out.append("nvars %d" % nsv)
        for j in step:
            u, v, w = es[j]
            s = 1 if strict and r.random() < 0.5 else 0
            rel, a, b, k = r.choice([("<=", u, v, w), ("<", u, v, w + 1), (">=", v, u, -w), (">", v, u, -w - 1)])
            lhs, rhs = genfake.term_pair(r, a, b, k, names, 1)
            sem = json.dumps({"s": s, "u": a, "v": b, "r": rel, "k": k, "l": lits[j]}, separators=(",", ":"))
            out.append("atom %s %d %s # %s # %s #%s" % ("b" if s else "h", lits[j], rel, lhs, rhs, sem))
        out.append("init")
        part = [x for x in ops(p, r, sch)]
        have = {abs(lits[j]) for j in step} if step is not steps[-1] else None
        for o in part:
            if have is not None and o.startswith("d "):
                f = o.split()
                ls = [x for x in f[2:] if abs(int(x)) in have]
                if not ls:
                    continue
                o = " ".join(f[:2] + ls)
            out.append(o)
        if p.stats:
            out.append("stats")
    out.append("end")
    return "\n".join(out)
