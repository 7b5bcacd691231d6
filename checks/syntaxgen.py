"""Random syntax-rules patterns with quoted templates, judged by refint's expander."""
import random
import refint as R
from vlib import Case

LITS = ["else", "=>", "in", "to", "list", "..."]
DATA = ["1", "2", "-7", '"s"', '""', "#t", "#f", "#\\a", "sym", "x", "else", "=>", "in", "()", "(1 2)", "(a . b)", "#(1 2)", "(a (b) c)", "list", "1/2"]


class Pat:
    """A pattern tree: ('v', name) ('l', literal) ('_',) ('d', datum) ('list', [items], index of ellipsis item or None, tail or None) ('vec', items, ell)"""


class G:
    def __init__(self, rng):
        self.r = rng
        self.n = 0

    def var(self):
        self.n += 1
        return self.r.choice(("a", "b", "x", "tmp", "if", "list", "quote2", "$")) + str(self.n)

    def pat(self, d, lits):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.45:
            k = r.random()
            if k < 0.7:
                return ("v", self.var())
            if k < 0.8 and lits:
                return ("l", r.choice(lits))
            if k < 0.88:
                return ("_",)
            return ("d", r.choice(DATA[:8]))
        n = r.choice((0, 1, 2, 2, 3))
        items = [self.pat(d - 1, lits) for _ in range(n)]
        ell = None
        if items and r.random() < 0.5:
            ell = r.randrange(n)
        if k < 0.87:
            tail = None
            if r.random() < 0.2 and items:
                tail = ("v", self.var())
            return ("list", items, ell, tail)
        return ("vec", items, ell)

    def text(self, p, e):
        if p[0] in "vld":
            return p[1]
        if p[0] == "_":
            return "_"
        out = []
        for i, x in enumerate(p[1]):
            out.append(self.text(x, e))
            if p[2] == i:
                out.append(e)
        if p[0] == "vec":
            return "#(" + " ".join(out) + ")"
        if p[3]:
            out += [".", self.text(p[3], e)]
        return "(" + " ".join(out) + ")"

    def instance(self, p):
        """A form that (mostly) matches p."""
        r = self.r
        if r.random() < 0.04:
            return r.choice(DATA)
        if p[0] in ("v", "_"):
            return r.choice(DATA)
        if p[0] in "ld":
            return p[1]
        out = []
        for i, x in enumerate(p[1]):
            for _ in range(r.choice((0, 1, 2, 3)) if p[2] == i else 1):
                out.append(self.instance(x))
        if p[0] == "vec":
            return "#(" + " ".join(out) + ")"
        if p[3] and r.random() < 0.7:
            tail = r.choice(("(9 8)", "()", "z", "5"))
            if not out:
                return tail
            return "(" + " ".join(out) + " . " + tail + ")"
        return "(" + " ".join(out) + ")"

    def vars(self, p, d=0):
        if p[0] == "v":
            return [(p[1], d)]
        if p[0] in ("list", "vec"):
            out = []
            for i, x in enumerate(p[1]):
                out += self.vars(x, d + (p[2] == i))
            if p[0] == "list" and p[3]:
                out += self.vars(p[3], d)
            return out
        return []

    def template(self, vs, d, e, depth=0):
        """vs: [(name, ellipsis depth)] ; depth: enclosing ellipses of the template"""
        r = self.r
        k = r.random()
        here = [v for v, n in vs if n == depth]
        if d <= 0 or k < 0.3:
            if here and r.random() < 0.85:
                return r.choice(here)
            return r.choice(("sym", "1", '"t"', "#t", "#\\z", "()", "else", "if", "(%s %s)" % (e, e)))
        if k < 0.75:
            out = []
            for _ in range(r.choice((0, 1, 2, 3))):
                deeper = [(v, n) for v, n in vs if n > depth]
                if deeper and r.random() < 0.6:
                    v, n = r.choice(deeper)
                    m = r.randrange(1, n - depth + 1)   # number of ellipses here
                    # under an ellipsis there must be a variable that is repeated by it
                    sub = self.cover(v, n, vs, d - 1, e, depth + m)
                    out.append(sub + (" " + e) * m)
                else:
                    out.append(self.template(vs, d - 1, e, depth))
            t = "(" + " ".join(out)
            if out and r.random() < 0.15:
                t += " . " + self.template(vs, 0, e, depth)
            return t + ")"
        if k < 0.87:
            return "#(" + " ".join(self.template(vs, d - 1, e, depth) for _ in range(r.randrange(3))) + ")"
        return self.template(vs, d - 1, e, depth)

    def cover(self, v, n, vs, d, e, depth):
        """A template in depth `depth` that contains v (of depth n)."""
        r = self.r
        core = v
        for _ in range(n - depth):
            core = "(%s %s)" % (core, e)
        # other variables may join only when their lengths agree: use those of the same depth rarely
        if r.random() < 0.35:
            return core
        consts = [(w, k) for w, k in vs if k == 0]
        extra = self.leafz(consts, e)
        return r.choice(("(%s %s)" % (core, extra), "(%s %s)" % (extra, core), "#(%s %s)" % (core, extra), "(%s . %s)" % (extra, core)))

    def leafz(self, consts, e):
        r = self.r
        if consts and r.random() < 0.6:
            return r.choice(consts)[0]
        return r.choice(("k", "0", "(u 1)", '"q"'))


def program(rng):
    g = G(rng)
    e = rng.choice(("...", "...", "...", ":::", "etc"))
    lits = rng.sample(LITS[:5], rng.choice((0, 0, 1, 2)))
    rules, pats = [], []
    for i in range(rng.choice((1, 1, 2, 3))):
        items = [g.pat(rng.choice((1, 2, 2, 3)), lits) for _ in range(rng.choice((0, 1, 2, 2, 3)))]
        ell = rng.randrange(len(items)) if items and rng.random() < 0.5 else None
        p = ("list", items, ell, ("v", g.var()) if items and rng.random() < 0.12 else None)
        pats.append(p)
        t = g.text(p, e)
        vs = g.vars(p)
        rules.append("((_%s (quote (r%d %s %s)))" % ((" " + t[1:]) if t != "()" else ")", i, " ".join(g.cover(v, n, vs, 1, e, 0) for v, n in rng.sample(vs, min(len(vs), 3))), g.template(vs, 3, e)))
    uses = []
    for _ in range(rng.choice((1, 2, 3))):
        f = g.instance(rng.choice(pats))
        uses.append("(m%s" % ((" " + f[1:]) if f[0] == "(" and f != "()" else ")"))
    use = rng.choice(uses)
    mac = "(syntax-rules %s(%s) %s)" % ("" if e == "..." else e + " ", " ".join(lits), " ".join(rules))
    k = rng.random()
    if k < 0.5:
        return "(let-syntax ((m %s)) %s)" % (mac, use)
    if k < 0.75:
        return "(let () (define-syntax m %s) %s)" % (mac, use)
    # a literal may be shadowed at the use, and then does not match
    if lits:
        return "(let-syntax ((m %s)) (let ((%s 1)) %s))" % (mac, rng.choice(lits), use)
    return "(letrec-syntax ((m %s)) (let ((list 1) (a1 2)) %s))" % (mac, use)


def run(ck, n):
    rng = random.Random("%s/syntax/%d" % (ck.pid, ck.seed))
    cases = []
    tries = 0
    while len(cases) < n and tries < n * 20:
        tries += 1
        text = program(rng)
        try:
            res, info = R.reference(text, orders=("rtl",), limit=5000)
        except (IndexError, TypeError, KeyError, ValueError):
            continue
        if res is None:
            ck.stat("patterns discarded: " + info.split(" ")[0])
            continue
        ck.stat("pattern programs that " + ("match" if res[0] == "V" else "match no rule"))
        import progcheck
        cases.append(Case(text, res[1] if res[0] == "V" else progcheck.explain(res), "patterns"))
    ck.run_cases(cases, variant="opt", batch=60)
