"""eq?, eqv? and equal? over complete matrices of generated object graphs, against a model with identities."""
import itertools, random
from fractions import Fraction
from vlib import Case

TECHNIQUE = "monitored execution: the complete matrix of the three predicates over pools of objects with sharing, cycles and mutation, judged by a model with object identities (bisimulation for cyclic data) and by the relational laws themselves"
NOTE = ("Held on the generated pools only (7 to 14 objects each). Not constrained, because R7RS or this implementation leaves it open: eq? of equal numbers and characters, eqv? of distinct strings, vectors, boxes and records with equal "
        "contents (the implementation compares contents), equal? of distinct boxes and records with equal contents. NaN, complex numbers of mixed exactness (known finding) and cycles through vectors are not generated.")
RULE = "pools of objects of all types built from one another, mutated, and compared pairwise before and after; memq, memv, member, assq, assv, assoc and case are judged against the predicates; distinct by text"
MIN = 1000

DEFS = r"""
(define (%code x y) (+ (if (eq? x y) 4 0) (if (eqv? x y) 2 0) (if (equal? x y) 1 0)))
(define (%matrix l) (map (lambda (x) (map (lambda (y) (%code x y)) l)) l))
(define (%index x l) (let loop ((i 0) (l l)) (if (eq? x l) i (loop (+ i 1) (cdr l)))))
(define (%mem p l) (map (lambda (x) (let ((r (p x l))) (if r (%index r l) -1))) l))
(define (%ass p l) (let ((al (map list l))) (map (lambda (x) (let ((r (p x al))) (if r (%index (memq r al) al) -1))) l)))
(define-record-type %p1 (make-%p1 a b) %p1? (a %p1-a set-%p1-a!) (b %p1-b))
(define-record-type %p2 (make-%p2 a b) %p2? (a %p2-a) (b %p2-b))
"""


class O:
    __slots__ = ("kind", "val")

    def __init__(self, kind, val):
        self.kind, self.val = kind, val


ATOMIC = {"int", "rat", "flo", "cpx", "char", "sym", "bool", "nil", "eof"}
OPAQUE = {"proc", "promise", "param", "port"}


def structural(a, b):
    """True, False or None (not constrained)."""
    seen = set()
    stack = [(a, b)]
    unsure = False
    while stack:
        x, y = stack.pop()
        if x is y or (id(x), id(y)) in seen:
            continue
        if x.kind != y.kind:
            return False
        if x.kind in ATOMIC or x.kind in ("str",) or x.kind.startswith("bv"):
            if x.val != y.val:
                return False
        elif x.kind in OPAQUE:
            return False
        elif x.kind == "pair":
            seen.add((id(x), id(y)))
            stack += [(x.val[0], y.val[0]), (x.val[1], y.val[1])]
        else:       # vec, box, rec1, rec2
            if len(x.val) != len(y.val):
                return False
            if x.kind != "vec":
                unsure = True
            stack += list(zip(x.val, y.val))
    return None if unsure else True


def model(a, b):
    q = structural(a, b)
    if a is b:
        return (None if a.kind in ("int", "rat", "flo", "cpx", "char") else True), True, True
    if q is False:
        return False, False, False
    if a.kind in ("sym", "bool", "nil", "eof"):
        return True, True, True
    if a.kind in ATOMIC:
        return None, True, True
    if a.kind == "pair":
        return False, False, q
    empty = a.kind in ("str", "vec") and len(a.val) == 0 or a.kind.startswith("bv") and len(a.val) == 0
    return (None if empty else False), None, q


INTS = [0, 1, -1, 2, 255, 2**31 - 1, 2**31, -2**31, 2**53, 2**53 + 1, 2**62, 2**63, 2**64, 10**30, -10**30]
FLOS = [Fraction(0), Fraction(1), Fraction(-1), Fraction(1, 2), Fraction(3, 2), Fraction(2**53), Fraction(10**30 // 2**60 * 2**60) if False else Fraction(2**100), Fraction(1, 2**60), Fraction(2**52 + 1, 2**52), Fraction(255)]


class G:
    def __init__(self, r):
        self.r = r
        self.pool, self.exprs = [], []
        self.frozen = set()   # pairs reachable from a vector, box or record: not mutated

    def atom(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            v = r.choice(INTS[:5] if r.random() < 0.5 else INTS)
            k = r.random()
            return O("int", v), str(v) if k < 0.6 else "(- %d 7)" % (v + 7) if k < 0.8 else "(* 1 (quotient %d 3))" % (v * 3)
        if x < 0.4:
            f = r.choice(FLOS)
            return O("flo", f), "(inexact %s)" % f
        if x < 0.45:
            n, d = r.choice([(1, 2), (3, 2), (-1, 3), (10**20, 3)])
            return O("rat", Fraction(n, d)), ("%d/%d" % (n, d)) if r.random() < 0.5 else "(/ %d %d)" % (n * 2, d * 2)
        if x < 0.5:
            a, b = r.choice([(1, 2), (1, 1), (2, 1), (0, 1)])
            return O("cpx", (a, b)), "(make-rectangular %d %d)" % (a, b)
        if x < 0.6:
            c = r.choice("aAb0") if r.random() < 0.7 else r.choice("\u03bb\u00e9\U0001f600")
            return O("char", c), "(integer->char %d)" % ord(c)
        if x < 0.72:
            s = r.choice(["a", "b", "A", "foo", "x y", ""])
            return O("sym", s), "'" + s if s.isalpha() and r.random() < 0.5 else '(string->symbol "%s")' % s
        if x < 0.8:
            b = r.random() < 0.5
            return O("bool", b), ("#t" if b else "#f") if r.random() < 0.6 else ("(null? '%s)" % ("()" if b else "(1)"))
        if x < 0.93:
            return O("nil", None), r.choice(["'()", "(list)", "(cdr (list 1))"])
        return O("eof", None), r.choice(["(eof-object)", '(read-char (open-input-string ""))'])

    def some(self):
        """An element: an earlier object, or a fresh atom."""
        r = self.r
        if self.pool and r.random() < 0.65:
            k = r.randrange(len(self.pool))
            return self.pool[k], "x%d" % k
        return self.atom()

    def freeze(self, o):
        stack = [o]
        while stack:
            x = stack.pop()
            if id(x) in self.frozen:
                continue
            self.frozen.add(id(x))
            if x.kind in ("pair", "vec", "box", "rec1", "rec2"):
                stack += list(x.val)

    def obj(self):
        r = self.r
        x = r.random()
        if x < 0.2:
            return self.atom()
        if x < 0.32:
            s = r.choice(["", "a", "abc", "abd", "\u03bbx", "a\n"])
            t = "".join("\\x%x;" % ord(c) for c in s)
            return O("str", s), r.choice(['(string-copy "%s")', '(list->string (string->list "%s"))', '(string-append "%s" "")']) % t
        if x < 0.4:
            tag = r.choice(["u8", "u8", "s8", "s16", "u16", "u32", "s64", "u64"])
            xs = r.choice([[], [1], [1, 2], [1, 3], [2, 1], [0]])
            return O("bv" + tag, list(xs)), "(%svector%s)" % (tag, "".join(" %d" % v for v in xs))
        if x < 0.68:
            n = r.choice([1, 1, 2, 3])
            if n == 1:
                (a, ea), (b, eb) = self.some(), self.some()
                return O("pair", [a, b]), "(cons %s %s)" % (ea, eb)
            es = [self.some() for _ in range(n)]
            o = O("nil", None)
            for a, _ in reversed(es):
                o = O("pair", [a, o])
            return o, "(list %s)" % " ".join(e for _, e in es)
        if x < 0.82:
            es = [self.some() for _ in range(r.choice([0, 1, 2, 3]))]
            o = O("vec", [a for a, _ in es])
            self.freeze(o)
            return o, "(vector%s)" % "".join(" " + e for _, e in es)
        if x < 0.87:
            a, e = self.some()
            o = O("box", [a])
            self.freeze(o)
            return o, "(box %s)" % e
        if x < 0.93:
            (a, ea), (b, eb) = self.some(), self.some()
            k = r.choice("12")
            o = O("rec" + k, [a, b])
            self.freeze(o)
            return o, "(make-%%p%s %s %s)" % (k, ea, eb)
        k = r.random()
        if k < 0.4:
            n = r.randint(0, 2)
            return O("proc", None), "(let ((y %d)) (lambda () (set! y (+ y 1)) y))" % n
        if k < 0.6:
            return O("promise", None), "(delay (car '()))"
        if k < 0.8:
            return O("param", None), "(make-parameter %d)" % r.randint(0, 2)
        return O("port", None), '(open-input-string "%s")' % r.choice(["", "a"])

    def copy(self):
        """A fresh copy of the spine of an earlier object."""
        r = self.r
        ks = [k for k, o in enumerate(self.pool) if o.kind in ("pair", "vec", "str")]
        if not ks:
            return self.obj()
        k = r.choice(ks)
        o = self.pool[k]
        if o.kind == "pair":
            return O("pair", list(o.val)), "(cons (car x%d) (cdr x%d))" % (k, k)
        c = O(o.kind, o.val if o.kind == "str" else list(o.val))
        self.freeze(c)
        return c, "(%s-copy x%d)" % ("vector" if o.kind == "vec" else "string", k)

    def mutate(self):
        r = self.r
        k = r.randrange(len(self.pool))
        o = self.pool[k]
        if o.kind == "pair" and id(o) not in self.frozen:
            j = r.randrange(len(self.pool))
            t, e = (self.pool[j], "x%d" % j) if r.random() < 0.75 else self.atom()
            # no vector, box or record may end up on a cycle
            reach, stack, bad = set(), [t], False
            while stack:
                y = stack.pop()
                if id(y) in reach:
                    continue
                reach.add(id(y))
                if y.kind in ("vec", "box", "rec1", "rec2"):
                    pass
                if y.kind in ("pair", "vec", "box", "rec1", "rec2"):
                    stack += list(y.val)
            if any(id(p) in reach and p.kind in ("vec", "box", "rec1", "rec2") and o in closure(p) for p in self.pool):
                return None
            w = r.choice([0, 1])
            o.val[w] = t
            if any(p.kind in ("vec", "box", "rec1", "rec2") and on_cycle(p) for p in self.pool):
                raise RuntimeError
            return "(set-c%sr! x%d %s)" % ("ad"[w], k, e)
        if o.kind == "str" and o.val:
            p = r.randrange(len(o.val))
            c = r.choice("abc")
            o.val = o.val[:p] + c + o.val[p + 1:]
            return "(string-set! x%d %d #\\%s)" % (k, p, c)
        if o.kind == "vec" and o.val:
            p = r.randrange(len(o.val))
            a, e = self.atom()
            o.val[p] = a
            return "(vector-set! x%d %d %s)" % (k, p, e)
        if o.kind == "box":
            a, e = self.atom()
            o.val[0] = a
            return "(set-box! x%d %s)" % (k, e)
        if o.kind == "rec1":
            a, e = self.atom()
            o.val[0] = a
            return "(set-%%p1-a! x%d %s)" % (k, e)
        if o.kind == "bvu8" and o.val:
            p = r.randrange(len(o.val))
            o.val[p] = r.randint(0, 2)
            return "(u8vector-set! x%d %d %d)" % (k, p, o.val[p])
        return None


def closure(o):
    seen, stack, out = set(), [o], []
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        if x.kind in ("pair", "vec", "box", "rec1", "rec2"):
            stack += list(x.val)
    return out


def on_cycle(o):
    return any(o is y for x in o.val for y in closure(x))


def snapshot(pool):
    return [[model(a, b) for b in pool] for a in pool]


def judge_matrix(m, spec, text):
    n = len(spec)
    for i in range(n):
        for j in range(n):
            c = m[i][j]
            got = (bool(c & 4), bool(c & 2), bool(c & 1))
            for name, g, w in zip(("eq?", "eqv?", "equal?"), got, spec[i][j]):
                if w is not None and g != w:
                    return "(%s x%d x%d) is %s" % (name, i, j, g)
            if (got[0] and not got[1]) or (got[1] and not got[2]):
                return "eq? implies eqv? implies equal?: x%d x%d" % (i, j)
            if m[j][i] != c:
                return "not symmetric: x%d x%d" % (i, j)
    for bit, name in ((4, "eq?"), (2, "eqv?"), (1, "equal?")):
        for i in range(n):
            for j in range(n):
                if i != j and m[i][j] & bit:
                    for k in range(n):
                        if bool(m[i][k] & bit) != bool(m[j][k] & bit) and not (bit == 4 and (i == k or j == k)):
                            return "%s is not transitive: x%d x%d x%d" % (name, i, j, k)
    return None


def parse(text):
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    stack = [[]]
    for t in toks:
        if t == "(":
            stack.append([])
        elif t == ")":
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(int(t))
    return stack[0][0]


def pool_case(i, seed):
    r = random.Random("%s/eqv/%d" % (seed, i))
    g = G(r)
    for _ in range(r.randint(7, 14)):
        o, e = g.copy() if g.pool and r.random() < 0.25 else g.obj()
        g.pool.append(o)
        g.exprs.append(e)
    specs, body = [], []
    lst = " ".join("x%d" % k for k in range(len(g.pool)))
    phases = r.randint(1, 3)
    for ph in range(phases):
        if ph or r.random() < 0.7:
            for _ in range(r.randint(1, 4)):
                m = g.mutate()
                if m:
                    body.append(("do", m))
        specs.append(snapshot(g.pool))
        body.append(("matrix", None))
    expr = "(let* (%s) " % " ".join("(x%d %s)" % (k, e) for k, e in enumerate(g.exprs))
    names = []
    closing = ")"
    for k, (what, e) in enumerate(body):
        if what == "do":
            expr += "(let ((d%d %s)) " % (k, e)
        else:
            expr += "(let ((m%d (%%matrix (list %s)))) " % (k, lst)
            names.append("m%d" % k)
        closing += ")"
    expr += "(list %s (%%mem memq (list %s)) (%%mem memv (list %s)) (%%mem member (list %s)) (%%ass assq (list %s)) (%%ass assv (list %s)) (%%ass assoc (list %s)))" % ((" ".join(names),) + (lst,) * 6)

    def want(kind, text):
        if kind != "V":
            return "the comparison failed"
        v = parse(text)
        for m, spec in zip(v, specs):
            why = judge_matrix(m, spec, text)
            if why:
                return why
        last = v[len(specs) - 1]
        for q, (name, bit) in enumerate((("memq", 4), ("memv", 2), ("member", 1), ("assq", 4), ("assv", 2), ("assoc", 1))):
            got = v[len(specs) + q]
            for a in range(len(last)):
                # numbers and characters need not be eq? to themselves, so that only what the matrix says counts
                w = next((b for b in range(len(last)) if last[a][b] & bit), -1)
                if got[a] != w and not (bit == 4 and g.pool[a].kind in ("int", "rat", "flo", "cpx", "char")):
                    return "%s found x%s where the predicate says x%d" % (name, got[a], w)
    return Case(expr + closing, want, "pool of %d phases" % phases, DEFS)


LITS = ([("int", v, str(v)) for v in INTS] + [("flo", v, "%d.0" % v) for v in (0, 1, 2, 255)] + [("flo", Fraction(1, 2), ".5")]
        + [("char", c, "#\\" + c) for c in "ab0A"] + [("sym", s, s) for s in ("a", "b", "foo", "else-not")]
        + [("bool", True, "#t"), ("bool", False, "#f"), ("nil", None, "()"), ("rat", Fraction(1, 2), "1/2")])


def case_case(i, seed):
    r = random.Random("%s/case/%d" % (seed, i))
    ls = r.sample(LITS, r.randint(2, 9))
    key = r.choice(ls) if r.random() < 0.6 else r.choice(LITS)
    clauses, cur = [], []
    for x in ls:
        cur.append(x)
        if r.random() < 0.4:
            clauses.append(cur)
            cur = []
    if cur:
        clauses.append(cur)
    arrow = r.random() < 0.3
    has_else = r.random() < 0.7
    want = next((str(k) for k, c in enumerate(clauses) if any((x[0], x[1]) == (key[0], key[1]) for x in c)), "no")
    keyx = "'" + key[2] if key[0] != "int" or r.random() < 0.5 else "(- %d 1)" % (key[1] + 1)
    body = []
    for k, c in enumerate(clauses):
        body.append("((%s) %s)" % (" ".join(x[2] for x in c), "=> (lambda (k) (if (eqv? k %s) %d 'wrong))" % (keyx, k) if arrow and r.random() < 0.5 else str(k)))
    if has_else:
        body.append("(else 'no)" if r.random() < 0.7 else "(else => (lambda (k) (if (eqv? k %s) 'no 'wrong)))" % keyx)
        return Case("(case %s %s)" % (keyx, " ".join(body)), want, "case dispatch")
    return Case("(let ((r (case %s %s))) (if (number? r) r 'no))" % (keyx, " ".join(body)), want, "case dispatch")


def run(ck):
    ck.run_known()
    ck.run_cases([pool_case(i, ck.seed) for i in range(ck.n(6000, 120000))])
    ck.run_cases([case_case(i, ck.seed) for i in range(ck.n(3000, 50000))], batch=100)
