"""Generator for runs of the application minimizing a variable."""
import json

import genreal


class OProfile(genreal.RProfile):
    def __init__(self, **kw):
        self.factors = ["1", "1", "1.5", "2", "2", "3", "10", "1000000000"]
        self.initial = 0.4
        self.ladder = (0, 5)     # choices that increase the variable
        self.stepw = (1, 9)
        self.missing = 0.04
        self.low = (-8, 8)
        self.limit = 0           # how often searches are limited
        self.real = 0            # how often values are real
        super().__init__(**kw)


EMPTY = {"pos": [], "neg": [], "nn": [], "td": []}


def program(r, tid, p):
    g = genreal.Gen(r, p)
    ladder = []
    text = []
    rules = []
    # without a lower bound there might be no minimum; so a variable either has
    # one or does not occur at all
    missing = r.random() < p.missing
    s = g.nv if missing else r.randint(1, g.nv)
    for _ in range(0 if missing else r.randint(*p.ladder)):
        a = g.atom()
        ladder.append(a)
        g.known.append(a)
        rules.append(dict(EMPTY, t="c", h=a, hd=[0, 0, "<=", 0]))
        text.append("{ %s }." % g.aname[a])

    def head(rule, hd):
        rule = dict(rule, t="d", h=0, hd=list(hd))
        rules.append(rule)
        text.append(g.rtext(rule, g.text(hd)))

    if missing and g.nv > 1:
        g.nv -= 1
    rs, _, t = g.step(0, True) if g.nv != s or not missing else ([], None, "")
    g.nv = max(g.nv, s)
    rules += rs
    lo = r.randint(*p.low)
    if not missing:
        head(EMPTY, (s, 0, ">=", lo))
    val = lo
    for a in ladder:
        val += r.randint(*p.stepw)
        c = r.random()
        body = dict(EMPTY, neg=[a]) if c < 0.7 else dict(EMPTY, pos=[a])
        if c < 0.85 or g.nv < 2:
            head(body, (s, 0, ">=", val))
        else:
            x = r.choice([y for y in range(1, g.nv + 1) if y != s])
            head(body, (s, x, ">=", r.randint(*p.stepw)))
            head(EMPTY, (x, 0, ">=", r.randint(*p.low)))
    r.shuffle(text)
    init = []
    if not missing and r.random() < p.initial:
        init = [r.choice([lo, lo - 1, lo + 1, val, val - 1, r.randint(lo - 3, val + 3), 1000, lo - 100])]
    out = ["trace %d" % tid, "cfg {}"]
    for x in range(1, g.nv + 1):
        out.append("var %d %s" % (x, g.nm[x]))
    for a, n in g.aname.items():
        out.append("atom %d %s" % (a, n))
    out.append("add " + " ".join([t] + text))
    out.append("arg --minimize-variable=%s%s" % (g.nm[s], ",%d" % init[0] if init else ""))
    f = r.choice(p.factors)
    if f != "1" or r.random() < 0.3:
        out.append("arg --minimize-factor=%s" % f)
    threads = r.choice(p.threads)
    if threads != "1":
        out.append("arg -t%s" % threads)
    for k, v in genreal.options(r, p, 4 if threads != "1" else 1):
        out.append("arg --%s=%s" % (k, v))
    if not r.choice(p.cc):
        out.append("arg --no-compute-components")
    if r.random() < 0.4:
        out.append("arg --rand-freq=%s" % r.choice(["0.3", "1"]))
        out.append("arg --seed=%d" % r.randint(1, 99999))
    if r.random() < 0.3:
        out.append("arg --configuration=%s" % r.choice(["frumpy", "jumpy", "tweety", "trendy", "handy", "crafty"]))
    if r.random() < 0.3:
        out.append("arg --sign-def=%s" % r.choice(["pos", "neg", "rnd"]))
    out.append("arg " + r.choice(["0", "0", "1"]))
    out.append("arg --eq=0")
    out.append("arg --stats")
    prog = {"k": "prog", "rules": rules, "s": s, "init": init}
    if r.random() < p.limit:
        out.append("arg --solve-limit=%s" % r.choice(["0", "1", "2", "3", "5", "8", "umax,0", "umax,1", "20,2"]))
        prog["limit"] = 1
    if r.random() < p.real:
        out.append("arg --rdl")
        prog["rdl"] = 1
    out.append("ev " + json.dumps(prog, separators=(",", ":")))
    out.append("end")
    return "\n".join(out)
