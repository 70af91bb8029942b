"""Program generator for the real-solver harness.

Generates (multi-shot) ground logic programs with difference constraints both
as text and as data for the specification.
"""
import json

import genterm

RELS = ["<=", "<", ">=", ">", "=", "!="]
NEG = {"<=": ">", "<": ">=", ">=": "<", ">": "<=", "=": "!=", "!=": "="}
MODES = ["no", "inverse", "partial", "partial+", "zero", "full"]
SORTS = ["no", "weight", "weight-reversed", "potential", "potential-reversed"]


class RProfile:
    def __init__(self, **kw):
        self.nvars = (1, 4)
        self.natoms = (1, 4)
        self.nderived = (0, 3)
        self.heads = (1, 5)
        self.bodies = (0, 3)
        self.cons = (0, 2)
        self.steps = [1]
        self.size = 13      # bound on the cost of enumerating the answer sets
        self.threads = ["1"]
        self.rels = RELS
        self.named = 0.7
        self.weights = (-3, 4)
        self.exts = 0.0
        self.assume = 0.0
        self.options = True
        self.variants = 0      # additional runs under other options
        self.same = "none"
        self.shift = False     # integrity constraint style
        self.rdl = False
        self.scale = 1
        self.unit = 1          # weights are multiples of this
        self.strict = False    # real-valued strict constraints
        self.linear = 0.25     # unusual ways to write terms
        self.terms = 0.0       # complicated terms
        self.facts = 0.2
        self.cc = [1, 1, 1, 0]
        self.dupstep = 0.2
        self.limits = 0.0      # stop searches early
        self.solvemode = 0.0   # other ways to solve than with a callback
        self.twin = 0.0        # runs take turns
        self.app = False       # run by the application of the Python package
        self.jitter = 0        # added to weights that are multiples of unit
        self.fancy = 0.4       # compound variable names
        for k, v in kw.items():
            if not hasattr(self, k):
                raise ValueError(k)
            setattr(self, k, v)


def options(r, p, threads):
    confs = []
    if r.random() < 0.8:
        confs.append(("propagate", r.choice(MODES)))
    if r.random() < 0.4:
        confs.append(("propagate-root", str(r.choice([0, 1, 2, 5, 18446744073709551615]))))
    if r.random() < 0.4:
        confs.append(("propagate-budget", str(r.choice([0, 1, 2, 10, 1000, 4294967296]))))
    if r.random() < 0.5:
        confs.append(("sort-edges", r.choice(SORTS)))
    if r.random() < 0.5:
        confs.append(("add-mutexes", r.choice(["0", "1", "2", "3", "5", "2,1", "3,10", "4,1000", "0,0", "7,0"])))
    if r.random() < 0.5:
        confs.append(("dl-heuristic", r.choice(["none", "min", "max"])))
    if threads > 1:
        for t in range(threads):
            if r.random() < 0.4:
                confs.append(("propagate", "%s,%d" % (r.choice(MODES), t)))
            if r.random() < 0.2:
                confs.append(("propagate-root", "%d,%d" % (r.choice([0, 1, 3]), t)))
            if r.random() < 0.2:
                confs.append(("propagate-budget", "%d,%d" % (r.choice([0, 1, 7]), t)))
            if r.random() < 0.2:
                confs.append(("sort-edges", "%s,%d" % (r.choice(SORTS), t)))
    r.shuffle(confs)
    return confs


class Names:
    def __init__(self, r, n, fancy):
        self.names = {0: "0"}
        self.trees = []
        for x in range(1, n + 1):
            t = ["y", "x%d" % x]
            if r.random() < fancy:
                t = r.choice([["f", "f", [["n", x]]], ["f", "f", [["n", x], ["y", "a"]]], ["t", [["n", x], ["y", "b"]]],
                              ["f", "g", [["f", "h", [["n", x]]], ["n", -x]]], ["f", "t", [["n", x], ["q", "q"]]]])
            self.names[x] = genterm.text(t)
            self.trees.append((t, self.names[x]))

    def __getitem__(self, x):
        return self.names[x]


def const(k, scale):
    """Constant given in multiples of 1/scale as a term."""
    if scale == 1 or k % scale == 0:
        return str(k // scale if scale > 1 else k)
    s = '"%s"' % repr(abs(k) / scale)
    return s if k > 0 else "-" + s


def diff(r, u, v, rel, k, nm, p):
    """Write u - v rel k as (element, relation, guard)."""
    c = r.random()
    kk = const(k, p.scale)
    kz = kk if not kk.startswith("-") else "(%s)" % kk
    U, V = nm[u], nm[v]
    if r.random() < p.terms:
        b = genterm.Builder(r, nm.trees, p.scale)
        x, y = b.sides(u, v, k, r.randint(0, 4))
        return genterm.infix(r, x), rel, genterm.infix(r, y)
    if u == 0 and v == 0:
        return r.choice(["0", "0-0"]), rel, kk
    if u == v:
        return "%s-%s" % (U, V), rel, kk
    if c > p.linear:
        if v == 0:
            return r.choice([U, U + "-0"]), rel, kk
        return ("%s-%s" % (U, V) if u else r.choice(["0-%s" % V, "-%s" % V])), rel, kk
    c = r.randint(0, 7)
    if c == 0:
        return U, rel, "%s+%s" % (V, kz)
    if c == 1:
        return "%s-%s" % (U, kz), rel, V
    if c == 2:
        return "-(%s-%s)" % (V, U), rel, kk
    if c == 3:
        return "2*%s-%s-%s" % (U, V, U), rel, kk
    if c == 4:
        return "%s-%s+%s" % (U, V, kz), rel, "%s+%s" % (kz, kz)
    if c == 5 and p.scale == 1:
        return "%s-1*%s" % (U, V), rel, "%d-%d" % (k + 7, 7)
    if c == 6:
        return "-1*%s+1*%s" % (V, U), rel, "0+%s" % kz
    if c == 7:
        return "0", rel, "%s-%s+%s" % (V, U, kz)
    return "%s-%s" % (U, V), rel, kk


class Gen:
    def __init__(self, r, p):
        self.r = r
        self.p = p
        self.nv = r.randint(*p.nvars)
        self.nm = Names(r, self.nv, p.fancy)
        self.natom = 0
        self.known = []     # atoms defined so far
        self.aname = {}
        self.cons = []      # constraints used in bodies
        self.exts = {}

    def atom(self, prefix="a"):
        self.natom += 1
        a = self.natom
        if self.p.fancy and self.r.random() < 0.3:
            prefix = self.r.choice(["_", "diff_", "dl_", "_dl"]) + prefix
        self.aname[a] = self.r.choice(["%s%d" % (prefix, a), "%s(%d)" % (prefix, a)])
        return a

    def constraint(self):
        r, p = self.r, self.p
        c = r.random()
        if c < 0.04:
            u = v = r.randint(0, self.nv)
        else:
            u, v = r.sample(range(0, self.nv + 1), 2)
        return (u, v, r.choice(p.rels), p.unit * r.randint(*p.weights) + (r.randint(-p.jitter, p.jitter) if p.jitter else 0))

    def text(self, con):
        e, rel, g = diff(self.r, *con, self.nm, self.p)
        return "&diff { %s } %s %s" % (e, rel, g)

    def body(self, maxlen=2, atoms=None, p0=0.3):
        r = self.r
        atoms = self.known if atoms is None else atoms
        rule = {"pos": [], "neg": [], "nn": [], "td": []}
        if not atoms:
            return rule
        for a in r.sample(atoms, min(len(atoms), r.randint(0 if r.random() < p0 else 1, maxlen))):
            c = r.random()
            rule["pos" if c < 0.6 else "neg" if c < 0.95 else "nn"].append(a)
        return rule

    def btext(self, rule):
        r = self.r
        parts = [self.aname[a] for a in rule["pos"]]
        parts += ["not " + self.aname[a] for a in rule["neg"]]
        parts += ["not not " + self.aname[a] for a in rule["nn"]]
        parts += [["", "not ", "not not "][x["s"]] + self.text(tuple(x["c"])) for x in rule["td"]]
        r.shuffle(parts)
        return ", ".join(parts)

    def rtext(self, rule, htext):
        b = self.btext(rule)
        if not b:
            return htext + "." if htext else ":- #true."
        return "%s :- %s." % (htext, b) if htext else ":- %s." % b

    def step(self, k, last):
        r, p = self.r, self.p
        rules = []
        text = []
        exts = []

        def add(t, rule, h=0, hd=None):
            rule = dict(rule)
            rule.update(t=t, h=h)
            rule["hd"] = list(hd) if hd else [0, 0, "<=", 0]
            rules.append(rule)
            if t == "n":
                text.append(self.rtext(rule, self.aname[h]))
            elif t == "c":
                text.append(self.rtext(rule, "{ %s }" % self.aname[h]))
            elif t == "d":
                text.append(self.rtext(rule, self.text(hd)))
            else:
                text.append(self.rtext(rule, ""))

        empty = {"pos": [], "neg": [], "nn": [], "td": []}
        if r.random() < p.exts:
            for _ in range(r.randint(1, 2)):
                a = self.atom("e")
                exts.append(a)
                text.append("#external %s." % self.aname[a])
                self.known.append(a)
        new = []
        for _ in range(r.randint(*p.natoms)):
            a = self.atom()
            if r.random() < p.facts:
                add("n", empty, a)
            else:
                add("c", empty if r.random() < 0.85 else self.body(), a)
            new.append(a)
        self.known += new
        # body constraints
        if not p.shift and not p.rdl:
            cs = []
            for _ in range(r.randint(*p.bodies)):
                cs.append(r.choice(self.cons) if self.cons and r.random() < p.dupstep else self.constraint())
            alone = []
            for c in cs:
                self.cons.append(c)
                rule = self.body() if r.random() > p.named else dict(empty)
                if rule["pos"] or rule["neg"] or rule["nn"] or r.random() < 0.6:
                    # the rule might be dropped by the grounder so that there
                    # has to be one where the constraint occurs alone
                    a = self.atom("n")
                    add("n", dict(empty, td=[{"s": r.choice([0, 0, 0, 1, 2]), "c": list(c)}]), a)
                    self.known.append(a)
                    alone.append(c)
                if rule["pos"] or rule["neg"] or rule["nn"] or r.random() < 0.7:
                    rule["td"] = [{"s": r.choice([0, 0, 1, 2]), "c": list(c)}]
                    if r.random() < 0.25 and alone:
                        rule["td"].append({"s": r.choice([0, 1]), "c": list(r.choice(alone))})
                    d = r.random()
                    if d < 0.4:
                        a = self.atom("n")
                        add("n", rule, a)
                        self.known.append(a)
                    elif d < 0.6:
                        add("x", rule)
                    else:
                        hd = self.constraint()
                        add("d", rule, 0, hd)
        # derived atoms (possibly through negative loops)
        der = [self.atom("p") for _ in range(r.randint(*p.nderived))]
        pool = self.known + der
        for a in der:
            for _ in range(r.choice([1, 1, 2])):
                add("n", self.body(2, pool), a)
        self.known += der
        # head constraints
        for _ in range(r.randint(*p.heads)):
            rule = self.body(2)
            hd = self.constraint()
            if p.rdl:
                hd = (hd[0], hd[1], r.choice(["<", "<", ">", ">", "<=", ">="] if p.strict else ["<=", ">=", "="]), hd[3])
            if p.shift and r.random() < 0.6:
                # in an integrity constraint with a sign
                rule["td"] = [{"s": r.choice([0, 1, 1, 2]), "c": list(hd)}]
                if r.random() < 0.15:
                    rule["td"].append({"s": r.choice([0, 1]), "c": list(self.constraint())})
                add("x", rule)
            else:
                add("d", rule, 0, hd)
        for _ in range(r.randint(*p.cons)):
            if r.random() < 0.5:
                add("x", self.body(3, p0=0.0) if self.known else empty)
        order = list(range(len(text)))
        r.shuffle(order)
        return rules, exts, " ".join(text[i] for i in order)


def ambiguous(rules):
    """Check if some cycle of constraints has weight zero.

    The epsilon used for strict constraints is not exactly representable; so
    the system might be off by a rounding error.
    """
    edges = []
    for rule in rules:
        if rule["t"] == "d":
            u, v, rel, k = rule["hd"]
            if rel in ("<=", "<"):
                edges.append((u, v, k - (rel == "<")))
            else:
                edges.append((v, u, -k - (rel == ">")))

    def walk(start, x, seen, w):
        for (a, b, c) in edges:
            if a == x and (b == start and w + c == 0 or b not in seen and b > start and walk(start, b, seen | {b}, w + c)):
                return True
        return False

    return any(walk(x, x, {x}, 0) for x in {e[0] for e in edges})


def size(rules, exts):
    """Estimate the (logarithmic) cost of enumerating the answer sets."""
    guess = set(exts)
    cons = set()
    for x in rules:
        guess.update(x["neg"], x["nn"], [x["h"]] if x["t"] == "c" else [])
        cons.update(tuple(y["c"]) for y in x["td"])
    neq = sum(x["hd"][2] == "!=" for x in rules if x["t"] == "d") + sum(c[2] in ("!=", "=") for c in cons)
    return len(guess) + len(cons) + 0.5 * neq


def program(r, tid, p):
    while True:
        g = Gen(r, p)
        nsteps = r.choice(p.steps)
        steps = []
        for k in range(nsteps):
            steps.append(g.step(k, k == nsteps - 1) + (list(g.known),))
        allrules = [x for st in steps for x in st[0]]
        if size(allrules, [a for st in steps for a in st[1]]) > p.size:
            continue
        if not p.strict or not ambiguous(allrules):
            break
    threads = r.choice(p.threads)
    cc = r.choice(p.cc)
    parts = []
    hist = []
    for k, (rules, exts, text, known) in enumerate(steps):
        for a in exts:
            g.exts[a] = "false"
        ops = [("part", k, rules, exts, text)]
        nsolves = 1 if nsteps == 1 and not p.exts and not p.assume else r.choice([1, 1, 2])
        if k < nsteps - 1 and r.random() < 0.1:
            nsolves = 0
        for _ in range(nsolves):
            for a in list(g.exts):
                if r.random() < 0.5:
                    v = r.choice(["true", "true", "false", "free"])
                    if r.random() < 0.12:
                        v = "release"
                        del g.exts[a]
                    else:
                        g.exts[a] = v
                    ops.append(("ext", a, v))
            asm = None
            if r.random() < p.assume and known:
                xs = r.sample(known, min(len(known), r.randint(1, 2)))
                asm = [(x, r.random() < 0.6) for x in xs]
            ops.append(("solve", asm))
        parts.append(ops)
    out = ["trace %d" % tid]
    out.append("cfg " + json.dumps({"same": p.same, "cc": cc}, separators=(",", ":")))
    if p.scale != 1:
        out.append("scale %d" % p.scale)
    for x in range(1, g.nv + 1):
        out.append("var %d %s" % (x, g.nm[x]))
    for a, n in g.aname.items():
        out.append("atom %d %s" % (a, n))
    for s in ["nosuchvar", "0", "f", "x(1)", "(1,)", "\"x1\""]:
        out.append("probe " + s)
    if p.twin and r.random() < p.twin:
        out.append("twin")
    if p.app:
        out.append("app")
    for run in range(1 + p.variants):
        out.append("run")
        nt = threads if run == 0 else r.choice(p.threads)
        maxt = 4
        if p.options and (run > 0 or r.random() < 0.85):
            for k, v in options(r, p, maxt if "," in nt or nt != "1" else 1):
                out.append("conf %s %s" % (k, v))
        if p.rdl:
            out.append("conf rdl yes")
        if not cc:
            out.append("conf compute-components no")
        if p.shift and r.random() < 0.85:
            out.append("conf shift-constraints yes")
        out.append("arg 0")
        if nsteps > 1:
            # clasp's equivalence preprocessing loses answer sets in multi-shot
            # solving (also without any theory)
            out.append("arg --eq=0")
        if r.random() < 0.3:
            out.append("arg --rand-freq=%s" % r.choice(["0.3", "1"]))
            out.append("arg --seed=%d" % r.randint(1, 99999))
        if r.random() < 0.3:
            out.append("arg --configuration=%s" % r.choice(["frumpy", "jumpy", "tweety", "trendy", "handy", "crafty"]))
        if r.random() < 0.2:
            out.append("arg --heuristic=Domain" if r.random() < 0.2 else "arg --restarts=no")
        if r.random() < 0.15:
            out.append("arg --sat-prepro=0")
        for k, ops in enumerate(parts):
            for op in ops:
                if op[0] == "part":
                    _, k, rules, exts, text = op
                    if k == 0 or len(p.threads) > 1 and r.random() < 0.5:
                        if len(p.threads) > 1 or nt != "1":
                            out.append("threads %s" % (nt if k == 0 else r.choice(p.threads)))
                    part = "base" if k == 0 else "p%d" % k
                    out.append("add #program %s. %s" % (part, text))
                    out.append("ground %s" % part)
                    out.append("ev " + json.dumps({"k": "part", "rules": rules, "exts": exts}, separators=(",", ":")))
                elif op[0] == "ext":
                    out.append("ext %s %s" % (g.aname[op[1]], op[2]))
                    out.append("ev " + json.dumps({"k": "ext", "a": op[1], "v": op[2]}, separators=(",", ":")))
                else:
                    asm = op[1] or []
                    if r.random() < p.solvemode:
                        out.append("mode %s" % r.choice(["call", "async", "yield", "yield"]))
                    if r.random() < p.limits:
                        out.append("limit %d" % r.choice([1, 1, 2, 3, 5]))
                    out.append("solve " + " ".join(("" if s else "-") + g.aname[x] for x, s in asm))
    if len({x for x in out if x.startswith("threads ")}) > 1:
        # with preprocessing, clasp enumerates duplicates after increasing the
        # number of threads between steps (also without any theory)
        bad = ["jumpy", "trendy", "handy", "crafty"]
        out = ["arg --configuration=frumpy" if x in ["arg --configuration=" + y for y in bad] else x for x in out]
    out.append("end")
    return "\n".join(out)
