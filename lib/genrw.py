"""Generator for programs whose statements are rewritten.

The statements only have to be parsed; nothing is grounded in the API traces.
In the application traces the programs are safe.
"""


class WProfile:
    def __init__(self, **kw):
        self.cli = False
        self.pools = 0.25
        self.limit = [1, 2, 2, 3]
        self.broken = 0.1       # probability that a statement may contain a malformed constraint
        self.shift = 0.5
        self.fail = 0.15         # probability that the callback fails once
        self.symbolic = 0.3
        self.diffs = 0.7        # probability that a theory atom is a difference constraint
        self.integrity = 0.35
        self.count = (4, 12)
        self.files = 0.2
        self.__dict__.update(kw)


RELS = ["<=", "<", ">=", ">", "=", "!="]


class Gen:
    def __init__(self, r, p):
        self.r = r
        self.p = p
        self.broken = False
        self.left = 0           # pools that may still be used in the statement
        self.safe = p.cli

    # terms of programs; pools never have equal elements
    def base(self):
        r = self.r
        if self.safe:
            return r.choice(["1", "2", "3", "a", "b", "\"s\"", "-1", "f(a)", "c"])
        return r.choice(["1", "2", "3", "a", "b", "X", "Y", "_", "\"s\"", "#inf", "#sup", "-1", "f(a)", "f(X,b)", "(a,b)", "(X,)", "c",
                         "1..3", "X+1", "2*X-Y", "|X-Y|", "-X", "X**2", "X\\2", "X/2", "X&3", "X?Y", "X^1", "~X", "@g(1)", "g", "()",
                         "-a", "diff", "__diff_h"])

    def distinct(self, n, f):
        xs = []
        while len(xs) < n:
            x = f()
            if x not in xs:
                xs.append(x)
        return xs

    def pool(self, pools, prob):
        """Decide to use a pool; the number of pools in a statement is limited."""
        if pools and self.left > 0 and self.r.random() < prob:
            self.left -= 1
            return True
        return False

    def term(self, pools=True, depth=2):
        r = self.r
        if self.pool(pools, self.p.pools):
            if r.random() < 0.7 or depth == 0:
                return "(" + ";".join(self.distinct(r.randint(2, 3), self.base)) + ")"
            xs = self.distinct(2, self.base)
            return r.choice(["f(%s;%s)", "f(%s;%s,x)", "g(1,%s;%s)"]) % tuple(xs)
        if depth and r.random() < 0.2:
            return "h(%s,%s)" % (self.term(pools, depth - 1), self.term(pools, 0))
        return self.base()

    def args(self, pools=True):
        n = self.r.choice([0, 1, 1, 1, 2])
        return "(%s)" % ",".join(self.term(pools) for _ in range(n)) if n else ""

    def atom(self, pools=True):
        neg = "-" if self.r.random() < 0.08 else ""
        name = self.r.choice(["p", "q", "r", "diff", "__diff_b"])
        if self.pool(pools, 0.3 * self.p.pools):
            return neg + name + "(%s;%s)" % tuple(self.distinct(2, self.base))
        return neg + name + self.args(pools)

    def sign(self):
        return self.r.choice(["", "", "", "not ", "not not "])

    def comparison(self, pools=True):
        r = self.r
        t = lambda: self.term(pools, 1)
        if self.safe:
            return "%s %s %s" % (t(), r.choice(["<", "<=", ">", ">=", "=", "!="]), t())
        return "".join([t()] + [" %s %s" % (r.choice(["<", "<=", ">", ">=", "=", "!="]), t()) for _ in range(r.choice([1, 1, 1, 2]))])

    def literal(self, pools=True):
        r = self.r
        c = r.random()
        if c < 0.12:
            return self.sign() + self.comparison(pools)
        if c < 0.2:
            return self.sign() + r.choice(["#true", "#false"])
        return self.sign() + self.atom(pools)

    # theory terms
    def tbase(self):
        r = self.r
        if self.safe:
            return r.choice(["a", "b", "x", "1", "5", "\"2\"", "f(a)", "f(a,1)", "(a,b)"])
        return r.choice(["a", "b", "x", "1", "5", "\"2\"", "f(a)", "f(X,1)", "(a,b)", "X", "[a,b]", "{a}", "(X,)", "-a", "diff", "()"])

    def tterm(self, depth=2):
        r = self.r
        if depth and r.random() < 0.5:
            ops = ["+", "-", "*", "/"]
            return "%s %s %s" % (self.tterm(depth - 1), r.choice(ops), self.tterm(depth - 1))
        return self.tbase()

    def conds(self, pools=True):
        return ", ".join(self.literal(pools) for _ in range(self.r.randint(1, 2)))

    def guard(self):
        r = self.r
        return " %s %s" % (r.choice(RELS), r.choice(["0", "1", "-3", "7", "\"1.5\"", "2 * 3", "a - b", "X"][:-1 if self.safe else None]))

    def diff(self):
        """A difference constraint."""
        r = self.r
        elem = self.tterm()
        guard = self.guard()
        if self.broken and r.random() < 0.6:
            c = r.random()
            if c < 0.15:
                return "&diff {}" + guard
            if c < 0.3:
                return "&diff { %s; %s }%s" % (elem, self.tterm(), guard)
            if c < 0.45:
                return "&diff { %s, %s }%s" % (elem, self.tterm(), guard)
            if c < 0.65:
                return "&diff { %s : %s }%s" % (elem, self.conds(False), guard)
            if c < 0.75:
                return "&diff { : %s }%s" % (self.conds(False), guard)
            if c < 0.8:
                return "&diff { : }%s" % guard
            if c < 0.88:
                return "&diff { }"
            return "&diff { %s }" % elem
        if r.random() < 0.06:
            return "&diff { %s: }%s" % (elem, guard)      # an empty condition
        return "&diff { %s }%s" % (elem, guard)

    def foreign(self, pools=True):
        """Any other theory atom."""
        r = self.r
        c = r.random()
        if self.pool(pools, 0.6 * self.p.pools):
            name = r.choice(["foo(%s;%s)", "diff(%s;%s)", "foo(0,%s;%s)"]) % tuple(self.distinct(2, self.base))
        else:
            name = r.choice(["foo", "foo(1)", "diff(1)", "diffs", "__diff_h", "__diff_b", "sum", "diff(a,b)", "dif"])
        els = []
        for _ in range(r.randint(0, 3)):
            t = ", ".join(self.tterm(1) for _ in range(r.choice([0, 1, 1, 1, 2])))
            if not t or r.random() < 0.4:
                t += " : " + self.conds(pools)
            els.append(t)
        return "&%s { %s }%s" % (name, "; ".join(els), r.choice(["", self.guard()]))

    def theory(self, pools=True):
        if self.r.random() < self.p.diffs:
            return self.diff()
        return self.foreign(pools)

    def guarded(self, text):
        r = self.r
        left = r.choice(["", "", "%s <= " % self.term(), "%s " % self.term(False)])
        right = r.choice(["", "", " < %s" % self.term()])
        if left or not right:
            return left + text + right
        return text + right

    def baggregate(self):
        r = self.r
        if r.random() < 0.35:
            els = []
            for _ in range(r.randint(1, 3)):
                e = self.literal()
                if r.random() < 0.5:
                    e += " : " + self.conds()
                els.append(e)
            return self.sign() + self.guarded("{ %s }" % "; ".join(els))
        els = []
        for _ in range(r.randint(1, 3)):
            els.append("%s : %s" % (",".join(self.term() for _ in range(r.randint(1, 2))), self.conds()))
        return self.sign() + self.guarded("#%s { %s }" % (r.choice(["sum", "sum+", "count", "min", "max"]), "; ".join(els)))

    def body_item(self):
        r = self.r
        c = r.random()
        if c < 0.45:
            return self.sign() + self.theory()
        if c < 0.6:
            # pools in both places multiply the number of rules exponentially
            lit = r.random() < 0.5
            return "%s : %s" % (self.literal(lit), self.conds(not lit))
        if c < 0.72:
            return self.baggregate()
        return self.literal()

    def body(self, n=(0, 3)):
        k = self.r.randint(*n)
        # elements with conditions have to be separated by semicolons
        return "; ".join(self.body_item() for _ in range(k))

    def head(self):
        r = self.r
        c = r.random()
        if c < 0.4:
            return self.theory()
        if c < 0.55:
            return self.sign() + self.atom()
        if c < 0.6:
            return self.sign() + self.comparison()
        if c < 0.75:
            els = []
            for _ in range(r.randint(1, 3)):
                e = self.sign() + self.atom()
                if r.random() < 0.4:
                    e += " : " + self.conds()
                els.append(e)
            return self.guarded("{ %s }" % "; ".join(els))
        if c < 0.85:
            els = []
            for _ in range(r.randint(1, 3)):
                lit = r.random() < 0.5
                e = self.atom(lit)
                if r.random() < 0.4:
                    e += " : " + self.conds(not lit)
                els.append(e)
            return "; ".join(els) if len(els) > 1 or ":" in els[0] else els[0]
        els = []
        for _ in range(r.randint(1, 2)):
            els.append("%s : %s%s" % (",".join(self.term() for _ in range(r.randint(1, 2))), self.atom(),
                                      " : " + self.conds() if r.random() < 0.5 else ""))
        return self.guarded("#%s { %s }" % (r.choice(["sum", "count", "min", "max"]), "; ".join(els)))

    def integrity(self):
        r = self.r
        head = r.choice(["", "", "", "", "#false ", "not #true ", "not not #false ", "#true ", "not #false ", "not not #true "])
        items = [self.sign() + self.diff() if r.random() < 0.45 else self.body_item() for _ in range(r.randint(1, 4))]
        return "%s:- %s." % (head, "; ".join(items))

    def other(self):
        """Statements that are no rules."""
        r = self.r
        body = lambda: " : " + self.body((1, 3))
        c = r.randint(0, 12)
        if self.safe and c in (7, 10, 11, 12):
            c = 2
        if c == 0:
            return ":~ %s. [%s@%s, %s]" % (self.body((1, 3)), self.term(), self.term(), self.term())
        if c == 1:
            return "#%s { %s : %s }." % (r.choice(["minimize", "maximize"]), self.term(), self.conds())
        if c == 2:
            return "#show %s/%d." % (r.choice(["p", "q", "diff", "-p"]), r.randint(0, 2))
        if c == 3:
            return "#show %s%s." % (self.term(), body())
        if c == 4:
            return "#external %s%s. [%s]" % (self.atom(), body(), r.choice(["true", "false", "free", self.term(False)] if not self.safe else ["true", "free"]))
        if c == 5:
            return "#edge (%s,%s)%s." % (self.term(), self.term(), body())
        if c == 6:
            return "#heuristic %s%s. [%s@%s,%s]" % (self.atom(), body(), self.term(False), self.term(False), r.choice(["sign", "level", "true"]))
        if c == 7:
            return "#project %s%s." % (self.atom(), body()) if r.random() < 0.5 else "#project p/%d." % r.randint(0, 2)
        if c == 8:
            return "#defined %s/%d." % (r.choice(["p", "diff"]), r.randint(0, 3))
        if c == 9:
            return "#const %s = %s." % (r.choice(["n", "m"]), r.choice(["1", "a", "f(a)"]))
        if c == 10:
            return "#program %s." % r.choice(["base", "diff", "step(t)", "p(a,b)"])
        if c == 11:
            return ("#theory %s { t { - : 3, unary; + : 1, binary, left }; u { }; &diff/0 : t, { <= , >= }, t, any; &foo/1 : u, body }."
                    % r.choice(["x", "dl", "y"]))
        return "#script (lua) function g(x) return x end #end."

    def statement(self):
        r = self.r
        self.broken = r.random() < self.p.broken
        self.left = r.choice(self.p.limit)
        c = r.random()
        if c < self.p.integrity:
            return self.integrity()
        if c < self.p.integrity + 0.15:
            return self.other()
        b = self.body()
        return "%s%s." % (self.head(), " :- " + b if b else "")


THEORY = """#theory t {
  u { - : 3, unary; + : 1, binary, left; - : 1, binary, left; * : 2, binary, left; / : 2, binary, left };
  &foo/0 : u, { <=, >=, <, >, =, != }, u, any; &foo/1 : u, { <=, >=, <, >, =, != }, u, any; &foo/2 : u, { <=, >=, <, >, =, != }, u, any;
  &diff/1 : u, { <=, >=, <, >, =, != }, u, any; &diff/2 : u, { <=, >=, <, >, =, != }, u, any;
  &diffs/0 : u, { <=, >=, <, >, =, != }, u, any; &dif/0 : u, { <=, >=, <, >, =, != }, u, any; &sum/0 : u, { <=, >=, <, >, =, != }, u, any
}."""


def program(r, tid, p):
    g = Gen(r, p)
    out = ["trace %d" % tid, "shift %d" % (r.random() < p.shift), "sym %d" % (not p.cli and r.random() < p.symbolic)]
    if not p.cli and r.random() < p.fail:
        out.append("fail %d" % r.randint(1, 12))
    n = r.randint(*p.count)
    for i in range(n):
        if i and r.random() < p.files:
            out.append("file")
        for line in g.statement().split("\n"):
            out.append("add " + line)
    out.append("end")
    return "\n".join(out)
