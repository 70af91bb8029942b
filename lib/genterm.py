"""Scenario generator for constraints between arbitrary terms.

Difference constraints are turned into complicated but equivalent terms and
others are generated at random.  What they mean is decided by the
specification (module Normalize), not here: the generator only knows which
constraints to combine with a good one to observe its constant.
"""
import json

from genfake import num

MAXI = 2**31 - 1
MINI = -2**31
# strings that are not numbers
STRINGS = ["x", "a b", "3x", "1 2", "2.5a", "-1-", "1e5e", "a\\nb", "\\\\", "q\\\"q", "\\\""]
CORNER = [MAXI, MINI, MAXI, MINI, MINI + 1, MAXI - 1, -1, -1, 1, 0, 2, -2, 46341, -46341, 46340, 65536, -65536, 32768]


class TProfile:
    def __init__(self, **kw):
        self.scale = 1
        self.depth = (1, 4)
        self.wild = 0.5      # probability of a constraint that might be rejected
        self.huge = 0.2      # probability of constants close to the limits
        self.fancy = 0.5     # probability of variables being complex terms
        self.threads = [1]
        self.corner = 0.0    # probability of a single constraint close to the limits
        for k, v in kw.items():
            if not hasattr(self, k):
                raise ValueError(k)
            setattr(self, k, v)


# --- trees -------------------------------------------------------------------

def sexpr(t):
    op = t[0]
    if op == "n":
        return str(t[1])
    if op == "d":
        return '"%s"' % t[3]
    if op == "y":
        return t[1]
    if op == "q":
        return '"%s"' % t[1]
    if op == "f":
        return "(%s %s)" % (t[1], " ".join(map(sexpr, t[2])))
    if op == "t":
        return "(, %s)" % " ".join(map(sexpr, t[1]))
    if op == "~":
        return "(- %s)" % sexpr(t[1])
    if op == "p":
        return "(+ %s)" % sexpr(t[1])
    return "(%s %s %s)" % (op, sexpr(t[1]), sexpr(t[2]))


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "~": 3, "p": 3}


def infix(r, t, prec=0):
    """The term as text with few parentheses."""
    op = t[0]
    if op == "n":
        s = str(t[1])
        p = 3 if t[1] < 0 else 4
    elif op == "d":
        return '"%s"' % t[3]
    elif op == "y":
        return t[1]
    elif op == "q":
        return '"%s"' % t[1]
    elif op in ("f", "t"):
        args = [infix(r, x) for x in t[-1]]
        return "%s(%s%s)" % (t[1] if op == "f" else "", ",".join(args), "," if op == "t" and len(args) == 1 else "")
    elif op == "p":
        return infix(r, t[1], prec)
    elif op == "~":
        p = 3
        x = infix(r, t[1], 3)
        s = "-" + (" " if x[0] == "-" else "") + x
    else:
        p = PREC[op]
        x = infix(r, t[2], p + 1)
        sp = " " if x[0] == "-" or r.random() < 0.3 else ""
        s = infix(r, t[1], p) + sp + op + sp + x
    if p < prec or r.random() < 0.05:
        return "(%s)" % s
    return s


def text(t):
    """The text of a symbol given by a term without arithmetics."""
    op = t[0]
    if op == "n":
        return str(t[1])
    if op == "y":
        return t[1]
    if op == "q":
        return '"%s"' % t[1]
    if op == "f":
        return "%s(%s)" % (t[1], ",".join(map(text, t[2])))
    if op == "t":
        return "(%s%s)" % (",".join(map(text, t[1])), "," if len(t[1]) == 1 else "")
    if op == "~":
        return "-" + text(t[1])
    raise ValueError(op)


def ground(r, depth):
    """A random symbol as a term without arithmetics (numbers may be negative)."""
    c = r.random()
    if depth <= 0 or c < 0.5:
        c = r.random()
        if c < 0.5:
            return ["n", r.randint(-3, 5) if r.random() < 0.9 else r.choice([MAXI, MINI, 10**6])]
        if c < 0.85:
            return ["y", r.choice(["a", "b", "c"])]
        return ["q", r.choice(STRINGS + ["", "3", "2.5", "-1"])]
    if c < 0.6:
        return ["~", r.choice([["y", "a"], ["y", "c"], ["f", "f", [ground(r, 0)]]])]
    args = [ground(r, depth - 1) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    if c < 0.85:
        return ["f", r.choice(["f", "g"]), args]
    if r.random() < 0.1:
        args = []
    return ["t", args]


def variables(r, n, fancy):
    res = []
    seen = set()
    while len(res) < n:
        if r.random() < fancy:
            x = ground(r, 2)
            if r.random() < 0.15:
                x = ["q", r.choice(STRINGS)]
            if x[0] not in ("f", "t") and (x[0] != "q" or x[1] not in STRINGS):
                continue
        else:
            x = ["y", r.choice(["u", "v", "w", "x", "y", "z"])]
        s = text(x)
        if s not in seen:
            seen.add(s)
            res.append((x, s))
    return res


def intexpr(r, n, depth, real):
    """An expression whose value is n (integers in the arguments of variables)."""
    if depth <= 0 or r.random() < 0.4 or abs(n) > 10**5:
        if n < 0 and n > MINI and r.random() < 0.6:
            return ["~", ["n", -n]]
        return ["n", n]
    c = r.random()
    if c < 0.3:
        a = r.randint(-9, 9)
        return ["+", intexpr(r, a, depth - 1, real), intexpr(r, n - a, depth - 1, real)]
    if c < 0.55:
        a = r.randint(-9, 9)
        return ["-", intexpr(r, n + a, depth - 1, real), intexpr(r, a, depth - 1, real)]
    if c < 0.7:
        return ["~", intexpr(r, -n, depth - 1, real)]
    if c < 0.85:
        for f in r.sample([-1, 2, 3, 1, -2], 5):
            if n % f == 0:
                x = [intexpr(r, n // f, depth - 1, real), intexpr(r, f, depth - 1, real)]
                r.shuffle(x)
                return ["*"] + x
    b = r.choice([-3, -2, 1, 2, 3, 7])
    a = n * b
    rem = 0 if real else r.randint(0, abs(b) - 1)
    if a > 0 or (a == 0 and r.random() < 0.5):
        a += rem
    else:
        a -= rem
    return ["/", intexpr(r, a, depth - 1, real), intexpr(r, b, depth - 1, real)]


def disguise(r, t, real):
    """A term denoting the same variable."""
    op = t[0]
    if op == "n":
        return intexpr(r, t[1], 2, real) if r.random() < 0.4 else t
    if op == "f":
        return ["f", t[1], [inner(r, x, real) for x in t[2]]]
    if op == "t":
        return ["t", [inner(r, x, real) for x in t[1]]]
    return t


def inner(r, t, real):
    if t[0] in ("y", "f", "~") and r.random() < 0.15:
        if t[0] == "~":
            return ["~", ["~", ["~", inner(r, t[1], real)]]]
        return ["~", ["~", disguise(r, t, real)]]
    if t[0] == "~":
        return ["~", inner(r, t[1], real)]
    return disguise(r, t, real)


class Builder:
    """Builds terms for linear expressions over variables 1..n; constants are in multiples of 1/scale."""

    def __init__(self, r, vs, scale):
        self.r = r
        self.vs = vs
        self.scale = scale
        self.real = scale != 1

    def var(self, x):
        return disguise(self.r, self.vs[x - 1][0], self.real)

    def leaf(self, k):
        """The constant k."""
        r = self.r
        if self.real:
            if k % self.scale == 0 and r.random() < 0.6:
                k //= self.scale
            else:
                v = k / self.scale
                if r.random() < 0.5:
                    return ["d", k, self.scale, repr(v)]
                x = ["d", abs(k), self.scale, repr(abs(v))]
                return ["~", x] if k < 0 else x
        elif r.random() < 0.05 and abs(k) < 10**6:
            return ["d", k, 1, r.choice(["%d", "%d.0", "%de0"]) % k]
        if k < 0 and k > MINI and r.random() < 0.6:
            return ["~", ["n", -k]]
        return ["n", k]

    def const(self, k, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.3:
            return self.leaf(k)
        c = r.random()
        small = abs(k) <= 10**6
        if c < 0.25:
            a = r.randint(-20, 20)
            if abs(k - a) <= MAXI:
                return ["+", self.const(a, depth - 1), self.const(k - a, depth - 1)]
        elif c < 0.5:
            a = r.randint(-20, 20)
            if abs(k + a) <= MAXI:
                return ["-", self.const(k + a, depth - 1), self.const(a, depth - 1)]
        elif c < 0.6:
            if k > MINI:
                return ["~", self.const(-k, depth - 1)]
        elif c < 0.8:
            for f in r.sample([-1, 2, 3, 5, 1, -2, -7], 7):
                if k % f == 0 and k > MINI:
                    x = [self.const(k // f, depth - 1), self.const(f * self.scale, depth - 1)]
                    r.shuffle(x)
                    return ["*"] + x
        elif small and self.real:
            b = r.choice([-4, -2, -1, 1, 2, 4])
            return ["/", self.const(k * b, depth - 1), self.const(b * self.scale, depth - 1)]
        elif small:
            b = r.choice([-7, -3, -2, -1, 1, 2, 3, 5])
            a = k * b
            rem = r.randint(0, abs(b) - 1)
            a += rem if a > 0 or (a == 0 and r.random() < 0.5) else -rem
            return ["/", self.const(a, depth - 1), self.const(b, depth - 1)]
        return self.leaf(k)

    def lin(self, co, k, depth):
        """A term for the sum of co[x] * x and k."""
        r = self.r
        co = {x: c for x, c in co.items() if c}
        if not co and r.random() < 0.7:
            return self.const(k, depth)
        if depth <= 0:
            parts = []
            for x, c in co.items():
                if abs(c) <= 2 and r.random() < 0.4:
                    parts += [(1 if c > 0 else -1, self.var(x))] * abs(c)
                elif abs(c) == 1:
                    parts.append((c, self.var(x)))
                else:
                    y = [self.var(x), self.leaf(abs(c) * self.scale)]
                    r.shuffle(y)
                    parts.append((1 if c > 0 else -1, ["*"] + y))
            if k or not parts:
                parts.append((1, self.leaf(k)))
            r.shuffle(parts)
            s, t = parts[0]
            t = t if s > 0 else ["~", t]
            for s, x in parts[1:]:
                t = ["+" if s > 0 else "-", t, x]
            return t
        c = r.random()
        if c < 0.35:
            n = len(self.vs)
            b = {x: r.choice([-2, -1, 0, 0, 1, 1]) for x in r.sample(range(1, n + 1), min(n, r.randint(0, 2)))}
            m = r.randint(-20, 20)
            d = {x: co.get(x, 0) - b.get(x, 0) for x in set(co) | set(b)}
            if abs(k - m) > MAXI:
                m = 0
            if r.random() < 0.5:
                return ["+", self.lin(b, m, depth - 1), self.lin(d, k - m, depth - 1)]
            return ["-", self.lin(d, k - m, depth - 1), self.lin({x: -y for x, y in b.items()}, -m, depth - 1)]
        if c < 0.5 and k > MINI:
            return ["~", self.lin({x: -y for x, y in co.items()}, -k, depth - 1)]
        if c < 0.55:
            return ["p", self.lin(co, k, depth - 1)]  # there is no unary plus in programs
        if c < 0.8 and k > MINI:
            for f in r.sample([-1, 2, 3, 1, -2], 5):
                if k % f == 0 and all(y % f == 0 for y in co.values()):
                    x = [self.lin({x: y // f for x, y in co.items()}, k // f, depth - 1),
                         self.const(f * self.scale, r.randint(0, 1))]
                    r.shuffle(x)
                    return ["*"] + x
        if c < 0.9:
            # something that vanishes
            z = self.lin({r.randint(1, len(self.vs)): 1}, r.randint(0, 3), depth - 2)
            zero = ["n", 0]
            x = [z, zero]
            r.shuffle(x)
            return ["+", ["*"] + x, self.lin(co, k, depth - 1)]
        return self.lin(co, k, depth - 1)

    def sides(self, u, v, k, depth):
        """Two terms (a, b) such that a rel b means u - v rel k."""
        r = self.r
        co = {}
        if u:
            co[u] = co.get(u, 0) + 1
        if v:
            co[v] = co.get(v, 0) - 1
        rest = {}
        for x, c in list(co.items()):
            if r.random() < 0.3:
                rest[x] = -c
        for x in range(1, len(self.vs) + 1):
            if r.random() < 0.1:
                rest[x] = rest.get(x, 0) + r.choice([-1, 1, 2])
        left = {x: co.get(x, 0) + rest.get(x, 0) for x in set(co) | set(rest)}
        m = r.choice([0, 0, 0, r.randint(-9, 9)])
        if abs(k + m) > MAXI:
            m = 0
        return self.lin(left, m, depth), self.lin(rest, k + m, depth)

    def huge(self):
        r = self.r
        c = r.random()
        if c < 0.5:
            return ["n", r.choice([MAXI, MAXI, MINI, MAXI - 1, MINI + 1, MAXI // 2, MAXI // 2 + 1, 46340, 46341, 65536, 2**30])]
        return ["n", r.randint(-5, 5)]

    def overflow(self, depth):
        """A constant expression with values close to the limits."""
        r = self.r
        if depth <= 0 or r.random() < 0.15:
            return self.huge()
        if r.random() < 0.4:
            return [r.choice("+-**/"), ["n", r.choice(CORNER)], ["n", r.choice(CORNER)]]
        op = r.choice(["+", "-", "*", "*", "/", "~"])
        if op == "~":
            return ["~", self.overflow(depth - 1)]
        x = [self.overflow(depth - 1), self.overflow(depth - 1) if r.random() < 0.5 else ["n", r.choice([-1, -1, 0, 1, 2, -2, 3, 10])]]
        if op in "+*":
            r.shuffle(x)
        return [op] + x

    def corner(self):
        """Sides of a constraint evaluating at most a few operations close to the limits."""
        r = self.r
        x = [r.choice("+-**/"), ["n", r.choice(CORNER)], ["n", r.choice(CORNER)]]
        if r.random() < 0.5:
            x = self.exact()
        if r.random() < 0.2:
            x = [r.choice("+-*/"), x, ["n", r.choice(CORNER)]]
        y = self.var(r.randint(1, len(self.vs)))
        z = ["n", r.choice([0, 1, -1, 5, -5])]
        c = r.random()
        if c < 0.35:
            f = ["f", "f", [x]]
            return (f, ["n", 3]) if r.random() < 0.5 else (["-", f, y], z)
        if c < 0.5:
            return y, x
        if c < 0.65:
            return [r.choice("+-"), y, x], z
        if c < 0.75:
            return [r.choice("+-"), x, y], z
        w = [x, z]
        r.shuffle(w)
        w = [r.choice("+-")] + w
        return (y, w) if r.random() < 0.5 else ([r.choice("+-"), w, y], ["n", 0])

    def exact(self):
        """An operation whose result is exactly a limit or just beyond."""
        r = self.r
        while True:
            v = r.choice([MAXI, MAXI + 1, -MAXI - 1, -MAXI - 2, MAXI - 1, -MAXI])
            b = r.choice([r.choice(CORNER), r.randint(-9, 9), r.randint(-MAXI, MAXI)])
            op = r.choice("+-*")
            if op == "*":
                b = r.choice([2, 3, 5, 7, 16, 256, 32768, 65536, 46341, 1 << r.randint(0, 30)]) * r.choice([1, -1])
                a = (abs(v) // abs(b)) * r.choice([1, -1]) + r.choice([-1, 0, 0, 0, 1])
            else:
                a = v - b if op == "+" else v + b
            if abs(a) <= MAXI and abs(b) <= MAXI:
                return [op, ["n", a], ["n", b]] if r.random() < 0.7 or op == "-" else [op, ["n", b], ["n", a]]

    def random(self, depth):
        r = self.r
        c = r.random()
        if depth <= 0 or c < 0.2:
            if r.random() < 0.5:
                return self.var(r.randint(1, len(self.vs)))
            return self.leaf(r.randint(-4, 8) * self.scale)
        op = r.choice(["+", "-", "*", "*", "/" if not self.real else "*", "~", "p"])
        if op in "~p":
            return [op, self.random(depth - 1)]
        return [op, self.random(depth - 1), self.random(depth - 1)]

    def broken(self, t):
        """Change a node of the term."""
        r = self.r
        if t[0] in ("+-~p" if self.real else "+-*/~p") and len(t) > 1 and isinstance(t[1], list) and r.random() < 0.7:
            i = r.randint(1, len(t) - 1)
            return t[:i] + [self.broken(t[i])] + t[i + 1:]
        c = r.random()
        x = self.var(r.randint(1, len(self.vs)))
        if c < 0.15:
            return ["*", t, ["n", r.choice([2, -2, 0, 3])]]
        if c < 0.3:
            return ["/", t, ["n", r.choice([0, 1, 2, -1]) if not self.real else r.choice([0, 0, 1, -1])]]
        if c < 0.4:
            return ["+", t, x]
        if c < 0.5:
            return ["*", t, x]
        if self.real and c < 0.6:
            return x
        if c < 0.55:
            return ["/", t, x]
        if c < 0.6:
            return ["/", t, ["-", ["n", 1], ["n", 1]]]
        if c < 0.68:
            return ["f", "f", [["+", x, ["n", 1]]]]
        if c < 0.73:
            return ["f", "f", [["/", ["n", 1], ["n", 0]]]]
        if c < 0.78:
            return ["f", "g", [["~", ["t", [["n", 1]]]]]]
        if c < 0.83 and not self.real:
            return ["d", 5, 2, "2.5"]
        if self.real:
            return x
        if c < 0.9:
            return ["f", "f", [self.overflow(1)]]
        return self.overflow(2)


def names_in(t, out):
    """All symbols a term might denote (used to number variables)."""
    if t[0] in ("f", "t", "y", "q"):
        v = evaluate(t)
        if v is not None and not isinstance(v, int):
            out.add(v)
    elif t[0] not in ("n", "d"):
        for x in t[1:]:
            names_in(x, out)


def evaluate(t):
    """The text of a symbol or a number or None."""
    op = t[0]
    if op == "n":
        return t[1]
    if op == "y":
        return t[1]
    if op == "q":
        return '"%s"' % t[1]
    if op in ("f", "t"):
        args = [evaluate(x) for x in t[-1]]
        if any(x is None for x in args):
            return None
        return "%s(%s%s)" % (t[1] if op == "f" else "", ",".join(map(str, args)), "," if op == "t" and len(args) == 1 else "")
    if op == "~":
        x = evaluate(t[1])
        if x is None or isinstance(x, int):
            return x if x is None else -x
        if x[0] in '"(':
            return None
        return x[1:] if x[0] == "-" else "-" + x
    if op in "+-*/" and len(t) == 3:
        a, b = evaluate(t[1]), evaluate(t[2])
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        if op == "/":
            if b == 0:
                return None
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        return a + b if op == "+" else a - b if op == "-" else a * b
    return None


# --- scenarios ---------------------------------------------------------------

def scenario(r, tid, p):
    out = ["trace %d" % tid]
    confs = [("propagate", r.choice(["no", "no", "inverse"]))]
    if p.scale != 1:
        confs.append(("rdl", "yes"))
    out += ["conf %s %s" % x for x in confs]
    threads = r.choice(p.threads)
    out.append("cfg " + json.dumps({"mode": [0] * 4, "root": [0] * 4, "budget": [0] * 4, "cc": 1, "heur": 0, "mxs": 0, "mxc": 0}, separators=(",", ":")))
    out.append("seed %d" % r.randint(1, 10**9))
    out.append("pol 0 0")
    if p.scale != 1:
        out.append("scale %d" % p.scale)
    vs = variables(r, r.randint(1, 4), p.fancy)
    bld = Builder(r, vs, p.scale)
    n = len(vs)
    head = len(out)
    names = {0: "0"}
    for i, (t, s) in enumerate(vs):
        names[i + 1] = sexpr(t)
    syms = {s: i + 1 for i, (_, s) in enumerate(vs)}
    nsv = 1
    out.append("threads %d" % threads)
    lines = []
    sched = []
    used = set()

    def lit():
        nonlocal nsv
        nsv += 1
        return nsv

    def term_atom(s, l, rel, a, b):
        for t in (a, b):
            names_in(t, used)
        sem = json.dumps({"s": s, "r": rel, "l": l, "a": a, "b": b}, separators=(",", ":"))
        lines.append("atom %s %d %s # %s # %s #%s" % ("b" if s else "h", l, rel, sexpr(a), sexpr(b), sem))

    def plain(u, v, k):
        l = lit()
        a = names[u] if v == 0 else "(- %s)" % names[v] if u == 0 else "(- %s %s)" % (names[u], names[v])
        sem = json.dumps({"s": 0, "u": u, "v": v, "r": "<=", "k": k, "l": l}, separators=(",", ":"))
        lines.append("atom h %d <= # %s # %s #%s" % (l, a, num(k, p.scale), sem))
        return l

    def probe(l, u, v, ub):
        """Observe the constant of u - v <= ub enabled by literal l."""
        if u == v or abs(ub) > MAXI - 10:
            return
        p1, p2 = plain(v, u, -ub), plain(v, u, -ub - 1)
        t = r.randrange(threads)
        seq = [["d %d %d" % (t, l), "d %d %d" % (t, p1), "b %d %d" % (t, r.randint(0, 1))],
               ["d %d %d" % (t, l), "d %d %d" % (t, p2), "b %d 0" % t],
               ["d %d %d" % (t, p1), "d %d %d" % (t, l), "b %d 0" % t]]
        r.shuffle(seq)
        for x in seq:
            sched.extend(x)
            if x[-1][-1] != "0":
                sched.append("b %d 0" % t)

    big = r.random() < p.huge and p.scale == 1
    corner = r.random() < p.corner
    for _ in range(0 if corner else 1 if big else r.randint(1, 3)):
        u, v = r.randint(0, n), r.randint(0, n)
        if u == v and r.random() < 0.9:
            v = (u + 1) % (n + 1)
        if big:
            k = r.choice([MAXI - r.randint(0, 30), -MAXI + r.randint(-1, 30), r.randint(-MAXI, MAXI)])
        else:
            k = r.randint(-40, 60)
        s = 1 if p.scale == 1 and r.random() < 0.3 else 0
        rels = ["<=", ">=", "="] if p.scale != 1 else ["<=", ">=", "<", ">"] + ([] if s else ["="])
        rel = r.choice(rels)
        a, b = bld.sides(u, v, k, r.randint(*p.depth))
        l = lit()
        term_atom(s, l, rel, a, b)
        if big and abs(k) > MAXI - 15:
            continue
        if rel in ("<=", "<"):
            ub = k if rel == "<=" else k - 1
            probe(l, u, v, ub)
            if s:
                probe(-l, v, u, -ub - 1)
        elif rel in (">=", ">"):
            ub = -k if rel == ">=" else -k - 1
            probe(l, v, u, ub)
            if s:
                probe(-l, u, v, -ub - 1)
        else:
            probe(l, u, v, k)
            probe(l, v, u, -k)
    steps = [(lines, sched)]
    if corner or r.random() < p.wild:
        lines, sched = [], []
        rels = ["<=", ">=", "="] if p.scale != 1 else ["<=", ">=", "<", ">", "="]
        rel = r.choice(rels)
        c = r.random()
        u, v = (r.sample(range(0, n + 1), 2) if n > 1 else [1, 0])
        if corner:
            a, b = bld.corner()
        elif c < 0.5:
            a, b = bld.sides(u, v, r.randint(-40, 60), r.randint(*p.depth))
            if r.random() < 0.5:
                a = bld.broken(a)
            else:
                b = bld.broken(b)
        elif c < 0.75 and p.scale == 1:
            a, b = bld.sides(u, v, 0, 1)
            x = bld.overflow(r.randint(1, 3))
            y = r.random()
            if y < 0.2:
                f = ["f", "f", [x]]
                a, b = (f, ["n", 3]) if r.random() < 0.5 else (["-", f, a], b)
            elif y < 0.6:
                b = ["+", b, x] if r.random() < 0.5 else x
            elif y < 0.8:
                a = ["-", a, x]
            else:
                a, b = ["-", a, x], x
        else:
            a, b = bld.random(r.randint(1, 3)), bld.random(r.randint(0, 2))
        l = lit()
        term_atom(1 if p.scale == 1 and rel != "=" and r.random() < 0.2 else 0, l, rel, a, b)
        steps.append((lines, []))
    for x in sorted(used):
        if x not in syms:
            syms[x] = len(syms) + 1
    pos = head
    for s, i in syms.items():
        out.insert(pos, "var %d %s" % (i, s))
        pos += 1
    # solver variables have to be known when the step starts
    maxv = nsv
    for i, (ls, sc) in enumerate(steps):
        out.append("nvars %d" % maxv)
        r.shuffle(ls)
        out += ls
        out.append("init")
        out += sc
        if i == 0 and not big:
            for _ in range(r.randint(0, 8)):
                t = r.randrange(threads)
                x = r.randint(2, maxv)
                out.append(r.choice(["d %d %d" % (t, x), "d %d %d" % (t, -x), "b %d %d" % (t, r.randint(0, 3))]))
    out.append("end")
    return "\n".join(out)
