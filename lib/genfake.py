"""Scenario generator for the fake-solver harness.

A scenario is a system of difference constraints with literals, a theory
configuration and a schedule of solver operations.  Everything is derived from
a random.Random instance, so scenarios are reproducible from the seed.
"""
import json

RELS = ["<=", "<", ">=", ">", "="]
MODES = ["no", "inverse", "partial", "partial+", "zero", "full"]
SORTS = ["no", "weight", "weight-reversed", "potential", "potential-reversed"]
MAXT = 4


class Profile:
    """Knobs of a family of scenarios."""

    def __init__(self, **kw):
        self.threads = [1]
        self.modes = MODES
        self.roots = [0, 0, 0, 1, 2, 4]
        self.budgets = [0, 0, 0, 1, 5, 50]
        self.perthread = 0.3
        self.mutex = [(0, 0)]
        self.cc = [1, 1, 1, 0]
        self.heur = [0]
        self.size = "mixed"
        self.steps = [1, 1, 2, 3]
        self.ops = (15, 35)
        self.strict = 0.3
        self.scale = 1
        self.decide = 0.0
        self.stats = False
        self.kinds = ["random", "zero", "ring", "dense", "multi", "ties", "diamond", "spt"]
        self.rethread = 0.0
        self.sorts = SORTS
        self.loops = 0.03
        self.batch = 0.4         # probability of several literals at once
        self.big = 0.0           # large weights such that sums still fit
        self.options = None      # None, "api" or "cli"
        self.par = 0.0           # part of the operations that are run concurrently
        for k, v in kw.items():
            if not hasattr(self, k):
                raise ValueError(k)
            setattr(self, k, v)


def graph(r, kind, size):
    """A list of (u, v, w) over variables 1..n and the constant 0."""
    if size == "mixed":
        size = r.choice(["s", "s", "m", "m", "l"])
    n, m = {"s": (r.randint(2, 4), r.randint(3, 8)),
            "m": (r.randint(4, 6), r.randint(8, 16)),
            "l": (r.randint(7, 12), r.randint(18, 34)),
            "x": (r.randint(14, 34), r.randint(40, 80))}[size]
    es = []

    def rnd(lo=-4, hi=7):
        return r.randint(lo, hi)

    if kind == "ties":
        for _ in range(m):
            u, v = r.sample(range(0, n + 1), 2)
            es.append((u, v, r.choice([-1, 0, 0, 1])))
    elif kind == "zero":
        for _ in range(m):
            x = r.randint(1, n)
            c = r.random()
            if c < 0.3:
                es.append((x, 0, rnd()))
            elif c < 0.6:
                es.append((0, x, rnd()))
            else:
                y = r.randint(1, n)
                if x != y:
                    es.append((x, y, rnd()))
    elif kind == "ring":
        vs = list(range(0 if r.random() < 0.5 else 1, n + 1))
        r.shuffle(vs)
        for i, u in enumerate(vs):
            v = vs[(i + 1) % len(vs)]
            if u != v:
                es.append((u, v, rnd(-3, 4)))
                if r.random() < 0.5:
                    es.append((v, u, rnd(-3, 4)))
        while len(es) < m:
            u, v = r.sample(range(0, n + 1), 2)
            es.append((u, v, rnd()))
    elif kind == "spt":
        # a sparse consistent part and constraints that change many values at once
        n = max(n, r.randint(5, 9))
        perm = list(range(0, n + 1))
        r.shuffle(perm)
        u, v, rest = perm[0], perm[1], perm[2:]
        width = r.choice([6, 10, 15])
        for x in rest:
            if r.random() < 0.7:
                es.append((v, x, r.randint(0, width)))
        for _ in range(2 * n):
            x, y = r.sample(rest, 2)
            es.append((x, y, r.randint(0, width // 3)))
        for x in rest:
            if r.random() < 0.3:
                es.append((x, u, r.randint(0, 2 * width)))
        r.shuffle(es)
        w = 0
        for _ in range(r.randint(1, 3)):
            w += r.randint(2, width)
            es.append((u, v, -w) if r.random() < 0.8 else (r.choice(rest), r.choice([u, v]), -w))
        return n, es
    elif kind == "chain":
        # long paths and constraints closing long cycles with small sums
        vs = list(range(0 if r.random() < 0.5 else 1, n + 1))
        r.shuffle(vs)
        pos = [0]
        for u, v in zip(vs, vs[1:]):
            w = rnd(-3, 4)
            es.append((u, v, w))
            pos.append(pos[-1] + w)
        for _ in range(m // 3):
            i, j = sorted(r.sample(range(len(vs)), 2))
            if r.random() < 0.3:
                i, j = 0, len(vs) - 1
            es.append((vs[j], vs[i], pos[i] - pos[j] + r.randint(-2, 3)))
        for _ in range(m // 6):
            u, v = r.sample(range(0, n + 1), 2)
            es.append((u, v, rnd(-2, 9)))
        r.shuffle(es)
        return n, es
    elif kind == "dense":
        n = min(n, 5)
        for _ in range(m + 4):
            u, v = r.sample(range(0, n + 1), 2)
            es.append((u, v, rnd(-2, 6)))
    elif kind == "pairs":
        # constraints in both directions between the same variables
        n = r.randint(3, 5)
        for _ in range(r.randint(4, 7)):
            u, v = r.sample(range(0, n + 1), 2)
            w = rnd(-3, 6)
            es.append((u, v, w))
            es.append((v, u, -w - r.randint(1, 2)))
    elif kind == "multi":
        k = r.randint(2, 3)
        groups = [[x for x in range(1, n + 1) if x % k == g] for g in range(k)]
        groups = [g for g in groups if g]
        for _ in range(m):
            g = r.choice(groups)
            if r.random() < 0.35 or len(g) == 1:
                x = r.choice(g)
                es.append((x, 0, rnd()) if r.random() < 0.5 else (0, x, rnd()))
            else:
                u, v = r.sample(g, 2)
                es.append((u, v, rnd()))
        if r.random() < 0.4:
            u, v = r.sample(range(1, n + 1), 2) if n > 1 else (1, 0)
            es.append((u, v, rnd()))
    elif kind == "diamond":
        # many paths of different length between the same vertices
        layers = [[0]]
        x = 1
        while x <= n:
            w = r.randint(1, 3)
            layers.append([y for y in range(x, min(n, x + w - 1) + 1)])
            x += w
        for a, b in zip(layers, layers[1:]):
            for u in a:
                for v in b:
                    es.append((u, v, rnd(-2, 3)) if r.random() < 0.8 else (v, u, rnd(0, 5)))
        for _ in range(max(2, m // 4)):
            a, b = sorted(r.sample(range(len(layers)), 2)) if len(layers) > 1 else (0, 0)
            if a != b:
                es.append((r.choice(layers[b]), r.choice(layers[a]), rnd(-4, 6)))
                if r.random() < 0.5:
                    es.append((r.choice(layers[a]), r.choice(layers[b]), rnd(-4, 6)))
        r.shuffle(es)
        es = es[:36]
    else:
        for _ in range(m):
            u, v = r.sample(range(0, n + 1), 2)
            es.append((u, v, rnd()))
    r.shuffle(es)
    return n, es


def num(x, scale):
    """Theory term for a constant given in multiples of 1/scale."""
    if scale == 1 or x % scale == 0:
        v = x // scale if scale != 1 else x
        return str(v) if v >= 0 else "(- %d)" % -v
    v = abs(x) / scale
    s = '"%s"' % repr(v)
    return s if x >= 0 else "(- %s)" % s


def term_pair(r, u, v, k, names, scale):
    """Two theory terms (lhs, rhs) whose comparison means u - v rel k."""
    def nm(x):
        return names[x]
    c = r.random()
    k_ = num(k, scale)
    if u == 0 and v == 0:
        return "0", k_
    if u == v:
        return "(- %s %s)" % (nm(u), nm(v)), k_
    if u == 0:
        lhs = r.choice(["(- %s)" % nm(v), "(- 0 %s)" % nm(v)])
    elif v == 0:
        lhs = r.choice([nm(u), "(- %s 0)" % nm(u), "(+ %s 0)" % nm(u)])
    else:
        lhs = "(- %s %s)" % (nm(u), nm(v))
        if c < 0.1:
            lhs = "(+ (- %s) %s)" % (nm(v), nm(u))
        elif c < 0.2:
            return nm(u), "(+ %s %s)" % (nm(v), k_)
    return lhs, k_


BOOLS = [["no", "off", "0"], ["yes", "on", "1"]]
KEYS = ["propagate", "propagate-root", "propagate-budget", "add-mutexes", "sort-edges", "dl-heuristic",
        "rdl", "shift-constraints", "compute-components"]
U64 = 2**64 - 1
BIG = [U64, U64 - 1, 2**63, 2**32, 2**31]


def case(r, s):
    """Change the case of some letters."""
    c = r.random()
    if c < 0.6:
        return s
    if c < 0.7:
        return s.upper()
    if c < 0.8:
        return s.capitalize()
    return "".join(x.upper() if r.random() < 0.5 else x for x in s)


def number(r, small):
    c = r.random()
    n = r.choice(small) if c < 0.9 else r.choice(BIG)
    return ("0" * r.randint(1, 3) if r.random() < 0.05 else "") + str(n)


def valid_option(r, p, key, thread=True):
    """A documented value."""
    t = ""
    if thread and r.random() < 0.5:
        t = ",%s%d" % ("0" if r.random() < 0.05 else "", r.choice([0, 0, 1, 1, 2, 3, 63]))
    if key == "propagate":
        return case(r, r.choice(p.modes)) + t
    if key == "propagate-root":
        return number(r, p.roots) + t
    if key == "propagate-budget":
        return number(r, p.budgets) + t
    if key == "add-mutexes":
        a, b = r.choice([(0, 0), (2, 100000), (3, 100000), (2, 10), (1, 5), (0, 100)])
        return str(a) if r.random() < 0.3 else "%d,%s" % (a, number(r, [b]))
    if key == "sort-edges":
        return case(r, r.choice(p.sorts)) + t
    if key == "dl-heuristic":
        return case(r, r.choice(["no", "none", "min", "max"]))
    return case(r, r.choice(BOOLS[r.randint(0, 1)]))


def invalid_option(r, p, key):
    """A value close to a documented one that should not be accepted."""
    v = valid_option(r, p, key)
    c = r.randint(0, 12)
    if c == 0:
        return ""
    if c == 1:
        return v + ","
    if c == 2:
        return r.choice([" ", "+", "-", "x"]) + v
    if c == 3:
        return v + r.choice([" ", "x", ",x", ";", ",1,1", ".0", "+", "-reversed"])
    if c == 4:
        return v.split(",")[0] + "," + r.choice(["64", "65", "100", str(U64), str(U64 + 1), str(U64 + 64), "-1", "+1", " 1", "1 ", "0x1", "a"])
    if c == 5:
        return r.choice([str(U64 + 1), str(U64 + 5), "9" * 20, "1" + "0" * 25, str(2**64 + 2**33)]) + r.choice(["", ",1"])
    if c == 6:
        return v[:-1]
    if c == 7:
        return v[1:]
    if c == 8:
        return "," + r.choice(["0", "1", ""])
    if c == 9:
        return r.choice(["foo", "true", "2", "none", "strong", "partial++", "weight_reversed", "medium", "default", "auto"])
    if c == 10:
        return v.split(",")[0] + r.choice([":1", " ,1", ", 1", ",,1"])
    if c == 11:
        return "2," + r.choice([str(U64 + 1), "", "-1", "x", "3,4"])
    return r.choice(p.modes + p.sorts + ["min", "max", "yes", "no", "7", "1,2"])


def accepted(key, v):
    """Only used to avoid values changing rdl by accident."""
    return key == "rdl" and v.lower() in BOOLS[0] + BOOLS[1]


def option_lines(r, p):
    out = []
    if p.options == "cli":
        opts = []
        wrong = r.randint(0, 3) if r.random() < 0.25 else -1
        flags = [k for k in ("rdl", "shift-constraints", "compute-components") if r.random() < 0.4]
        if p.scale != 1 and "rdl" not in flags:
            flags.append("rdl")
        for k in flags:
            v = r.randint(0, 1)
            if k == "rdl":
                v = 1 if p.scale != 1 else 0
            opts.append((k, BOOLS[v][0]))
        for i in range(r.randint(0, 8)):
            k = r.choice(KEYS[:5])
            v = valid_option(r, p, k)
            if i == wrong:
                v = invalid_option(r, p, k) or "x"
            opts.append((k, v))
        if r.random() < 0.5:
            opts.append(("dl-heuristic", valid_option(r, p, "dl-heuristic")))
        if r.random() < 0.35:
            opts.append(("minimize-variable", r.choice(
                ["x", "v1", "f(1,2)", "f(x)", "x,3", "x,-12", "f(1),0", "f(a,b),100", "x_Y1,7", "7", "-7,2"]
                if r.random() < 0.6 else
                ["x,1,2", "x,a", "X", "f(", "x,", ",3", "x,3,", "f(1)),2", "x,f(1)", "f(1,),X", "x,1,y", "f(,1)", "x,\"3\""])))
        if r.random() < 0.35:
            opts.append(("minimize-factor", r.choice(
                ["1", "1.5", "2", "100", "1.0", "007", "2147483647", "1.000001"]
                if r.random() < 0.6 else
                ["0", "0.5", "0.999999", "x", "1.5x", "-2", "2147483648", "1,5", "2 x", "99999999999", "1.2.3", "nan", "inf"])))
        r.shuffle(opts)
        return ["opt %s %s" % x for x in opts]
    out.append("order " + r.choice(["012", "102", "120", "201"]))
    real = "yes" if p.scale != 1 else "no"
    for _ in range(r.randint(3, 14)):
        c = r.random()
        k = r.choice(KEYS)
        if c < 0.03:
            k = r.choice(["foo", "", "Propagate", "propagate_root", "propagate-", "rd", "rdll", "RDL", "minimize-variable"])
            v = r.choice(["no", "1", "full", ""])
        elif c < 0.4:
            v = invalid_option(r, p, k)
        else:
            v = valid_option(r, p, k)
        if r.random() < 0.35:
            out.append("other %d %s %s" % (r.randint(1, 2), k, v))
        elif not accepted(k, v):
            out.append("conf %s %s" % (k, v))
    at = r.randint(1, len(out))
    if r.random() < 0.5:
        out.insert(at, "conf rdl %s" % case(r, r.choice(BOOLS[0] + BOOLS[1])))
    if p.scale != 1 or len(out) > at and r.random() < 0.6 or any(x.startswith("conf rdl") for x in out):
        out.insert(r.randint(at + 1, len(out)) if at + 1 <= len(out) else len(out), "conf rdl %s" % case(r, r.choice(BOOLS[real == "yes"])))
    for i in range(3):
        if r.random() < 0.5:
            out.append("rewrite %d" % i)
    return out


def concurrent(r, out):
    """Run operations of the current step in blocks of concurrent ones."""
    i = len(out)
    while out[i - 1].split()[0] in ("d", "D", "a", "f", "b", "share", "root"):
        i -= 1
    ops = out[i:]
    del out[i:]
    while ops:
        n = r.choice([1, 3, 6, 10, 30])
        if r.random() < 0.8:
            out.append("par")
            out += ops[:n]
            out.append("rap")
        else:
            out += ops[:n]
        ops = ops[n:]


def scenario(r, tid, p):
    """Generate one scenario; returns the text block."""
    out = ["trace %d" % tid]
    cfg = {"mode": [], "root": [], "budget": []}
    mode, root, budget = r.choice(p.modes), r.choice(p.roots), r.choice(p.budgets)
    confs = []
    if mode != "no" or r.random() < 0.3:
        confs.append(("propagate", mode))
    if root or r.random() < 0.2:
        confs.append(("propagate-root", str(root)))
    if budget or r.random() < 0.2:
        confs.append(("propagate-budget", str(budget)))
    sort = r.choice(p.sorts)
    confs.append(("sort-edges", sort))
    tm, tr, tb = [mode] * MAXT, [root] * MAXT, [budget] * MAXT
    if r.random() < p.perthread:
        for t in r.sample(range(MAXT), r.randint(1, MAXT)):
            if r.random() < 0.7:
                tm[t] = r.choice(p.modes)
                confs.append(("propagate", "%s,%d" % (tm[t], t)))
            if r.random() < 0.4:
                tr[t] = r.choice(p.roots)
                confs.append(("propagate-root", "%d,%d" % (tr[t], t)))
            if r.random() < 0.4:
                tb[t] = r.choice(p.budgets)
                confs.append(("propagate-budget", "%d,%d" % (tb[t], t)))
            if r.random() < 0.3:
                confs.append(("sort-edges", "%s,%d" % (r.choice(p.sorts), t)))
    mx = r.choice(p.mutex)
    if mx != (0, 0):
        confs.append(("add-mutexes", "%d,%d" % mx))
    heur = r.choice(p.heur)
    if heur:
        confs.append(("dl-heuristic", ["no", "min", "max"][heur]))
    cc = r.choice(p.cc)
    if not cc:
        confs.append(("compute-components", "no"))
    if p.scale != 1:
        confs.append(("rdl", "yes"))
    r.shuffle(confs)
    if p.options is None:
        out += ["conf %s %s" % x for x in confs]
    else:
        out += option_lines(r, p)
    cfg["mode"] = [MODES.index(m) for m in tm]
    cfg["root"] = tr
    cfg["budget"] = tb
    cfg.update(cc=cc, heur=heur, mxs=mx[0], mxc=mx[1])
    out.append("cfg " + json.dumps(cfg, separators=(",", ":")))
    out.append("seed %d" % r.randint(1, 10**9))
    out.append("pol %d %d" % (r.choice([0, 0, 30, 100]), r.choice([0, 0, 1])))
    if p.scale != 1:
        out.append("scale %d" % p.scale)
    kind = r.choice(p.kinds)
    n, es = graph(r, kind, p.size)
    if r.random() < p.big:
        # no path exceeds 2^27 and no sum of a few paths 2^31
        top = max([1] + [abs(w) for _, _, w in es])
        f = 2**27 // ((n + 2) * top)
        f = r.choice([f, f // 2, f // 100 + 1, 1000, 65536]) if f > 65536 else f
        es = [(u, v, w * f + r.choice([-1, 0, 0, 0, 1])) for u, v, w in es]
    style = r.random()
    names = {0: "0"}
    for x in range(1, n + 1):
        if style < 0.6:
            names[x] = "v%d" % x
            s = names[x]
        elif style < 0.8:
            names[x] = "(f %d %d)" % (x % 3, x)
            s = "f(%d,%d)" % (x % 3, x)
        else:
            names[x] = "(, %d a)" % x
            s = "(%d,a)" % x
        out.append("var %d %s" % (x, s))
    steps = r.choice(p.steps)
    nsv = 1
    threads = r.choice(p.threads)
    lits = []
    for step in range(steps):
        part = es[len(es) * step // steps: len(es) * (step + 1) // steps]
        if r.random() < p.rethread and step > 0:
            threads = r.choice([t for t in (1, 2, 3, 4)])
        out.append("threads %d" % threads)
        new = []
        atoms = []
        for (u, v, w) in part:
            c = r.random()
            strict = 1 if p.scale == 1 and r.random() < p.strict else 0
            if c < 0.03:
                lit = 1
            elif c < 0.04:
                lit = -1
            elif c < 0.18 and lits:
                lit = r.choice(lits)
                if r.random() < 0.4:
                    lit = -lit
            else:
                nsv += 1
                lit = nsv
                new.append(lit)
                if r.random() < 0.2:
                    lit = -lit
            # u - v <= w written with some relation
            c = r.random()
            k, rel, a, b = w, "<=", u, v
            if p.scale == 1 and c < 0.2:
                rel, k = "<", w + 1
            elif c < 0.5:
                rel, a, b, k = ">=", v, u, -w
            elif p.scale == 1 and c < 0.6:
                rel, a, b, k = ">", v, u, -w - 1
            elif c < 0.68 and not strict:
                rel = "="
            atoms.append((strict, a, b, rel, k, lit))
        if r.random() < p.loops:
            nsv += 1
            x = r.randint(1, n)
            new.append(nsv)
            atoms.append((1 if r.random() < 0.4 and p.scale == 1 else 0, x, x, r.choice(["<=", ">="]), r.randint(-2, 2), nsv))
        lits += new
        # extra solver variables without constraints
        nsv += r.randint(0, 1)
        out.append("nvars %d" % nsv)
        for (s, a, b, rel, k, lit) in atoms:
            lhs, rhs = term_pair(r, a, b, k, names, p.scale)
            sem = json.dumps({"s": s, "u": a, "v": b, "r": rel, "k": k, "l": lit}, separators=(",", ":"))
            out.append("atom %s %d %s # %s # %s #%s" % ("b" if s else "h", lit, rel, lhs, rhs, sem))
        if r.random() < 0.4:
            out.append("root %d" % r.choice([0, 1, 1, 2, 3]))
        out.append("init")
        allv = list(range(2, nsv + 1))
        if not allv:
            continue
        bias = r.choice([0.5, 0.7, 0.9, 1.0])

        def lit_():
            x = r.choice(allv)
            # prefer making constraints true
            return x if r.random() < bias else -x
        if r.random() < (0.7 if kind == "spt" else 0.15):
            # make the constraints true in the order of their introduction
            t = r.randrange(threads)
            seq = [x[5] for x in atoms if abs(x[5]) > 1 and r.random() < bias]
            while seq:
                k = 1 if r.random() < 0.7 else r.randint(2, 6)
                out.append("d %d %s" % (t, " ".join(map(str, seq[:k]))))
                seq = seq[k:]
        for _ in range(r.randint(*p.ops)):
            t = r.randrange(threads)
            c = r.random()
            if c < 0.62:
                op = "D" if r.random() < p.decide else "d"
                cnt = 1 if r.random() >= p.batch else r.randint(2, 5)
                out.append("%s %d %s" % (op, t, " ".join(str(lit_()) for _ in range(cnt))))
            elif c < 0.68:
                out.append("a %d %s" % (t, " ".join(str(lit_()) for _ in range(r.randint(1, 3)))))
            elif c < 0.72:
                out.append("f %d %s" % (t, " ".join(str(lit_()) for _ in range(r.randint(1, 2)))))
            elif c < 0.73:
                out.append("root %d" % r.choice([0, 1, 1, 2, 3]))
            elif c < 0.96:
                out.append("b %d %d" % (t, r.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8] if p.size != "x" else [0, 1, 2, 3, 5, 8, 13, 21, 30])))
            elif threads > 1:
                out.append("share %d" % t)
        # complete the assignment sometimes to reach the final check
        if r.random() < 0.6:
            for t in range(threads):
                order = allv[:]
                r.shuffle(order)
                for x in order:
                    out.append("%s %d %d" % ("D" if r.random() < p.decide else "d", t, x if r.random() < bias else -x))
        if threads > 1 and r.random() < p.par:
            concurrent(r, out)
        if p.stats and r.random() < 0.85:
            out.append("stats")
    out.append("end")
    return "\n".join(out)
