"""Vectors, bytevectors and homogeneous vectors against Python models."""
import random
from fractions import Fraction
import reenter
from vlib import Case

TECHNIQUE = "monitored execution of generated sequences of operations on several mutable vectors with a differential oracle (Python lists), every live vector being inspected after the sequence and every result as it is produced"
NOTE = ("Held on the generated sequences only: up to four vectors of at most 24 elements (a stratum of 5000), 3 to 12 operations, indexes inside the ranges R7RS allows. "
        "Literal constants are not mutated. Trusts the models in checks/c20.py.")
RULE = ("sequences of constructors, accessors, overlapping and disjoint copies, fills, conversions and maps over vectors, bytevectors and the ten homogeneous vector types; results and the "
        "final contents of all vectors are compared; element values at the ends of the ranges of the types; distinct by text")
MIN = 2000

TAGS = {"s8": (-128, 127), "u8": (0, 255), "s16": (-2**15, 2**15 - 1), "u16": (0, 2**16 - 1),
        "s32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "s64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1),
        "f32": None, "f64": None}

CHARS = ["a", "Z", "0", "\u00e9", "\u03bb", "\u20ac", "\U0001f600", "~"]


class Sym(str):
    __slots__ = ()


class Ch(str):
    __slots__ = ()


def ref(x):
    """Scheme expression for an element."""
    if isinstance(x, Ch):
        return "(integer->char %d)" % ord(x)
    if isinstance(x, Sym):
        return "'" + x
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, Fraction):
        return "(inexact %d/%d)" % (x.numerator, x.denominator) if x.denominator != 1 else "(inexact %d)" % x.numerator
    return str(x)


def out(x):
    """What %show prints of it."""
    if isinstance(x, Ch):
        return "(c %d)" % ord(x)
    if isinstance(x, Sym):
        return str.__str__(x)
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, Fraction):
        return "(f %s)" % (x if x.denominator != 1 else x.numerator)
    if isinstance(x, int):
        return str(x)
    if isinstance(x, list):
        return "(" + " ".join(map(out, x)) + ")"
    if isinstance(x, Vec):
        return "(v %s%s)" % (x.kind, "".join(" " + out(e) for e in x.items))
    if isinstance(x, tuple):   # a string
        return "(s%s)" % "".join(" %d" % ord(c) for c in x)
    raise ValueError(repr(x))


DEFS = r"""
(define (%show x)
  (cond ((char? x) (list 'c (char->integer x)))
        ((and (number? x) (inexact? x)) (list 'f (exact x)))
        ((string? x) (cons 's (map char->integer (string->list x))))
        ((vector? x) (cons* 'v 'v (map %show (vector->list x))))
""" + "".join("        ((%svector? x) (cons* 'v '%s (map %%show (let loop ((i (- (%svector-length x) 1)) (r '())) (if (< i 0) r (loop (- i 1) (cons (%svector-ref x i) r)))))))\n" % (t, t, t, t) for t in TAGS) + r"""
        ((pair? x) (cons (%show (car x)) (%show (cdr x))))
        (else x)))
(define %log '())
(define (%note . xs) (set! %log (cons xs %log)))
(define (%insert x l) (if (or (null? l) (<= x (car l))) (cons x l) (cons (car l) (%insert x (cdr l)))))
(define (%sort l) (if (null? l) '() (%insert (car l) (%sort (cdr l)))))
"""


class Vec:
    def __init__(self, kind, items):
        self.kind, self.items = kind, items


class G:
    def __init__(self, r, kind):
        self.r, self.kind = r, kind
        self.name = "vector" if kind == "v" else kind + "vector"
        self.byte = kind == "u8"
        self.maxlen = 24

    def n(self, name):
        """Spelling of a procedure; bytevectors have two."""
        return name

    def elem(self):
        r, k = self.r, self.kind
        if k == "v":
            x = r.random()
            return r.randint(-50, 50) if x < 0.5 else r.choice([True, False]) if x < 0.6 else Sym(r.choice("abcxyz")) if x < 0.8 else Ch(r.choice(CHARS)) if x < 0.9 else r.randint(-2**70, 2**70)
        if k == "f32":
            return Fraction(r.randint(-2**24, 2**24)) * Fraction(2)**r.randint(-30, 60)
        if k == "f64":
            return Fraction(r.randint(-2**53, 2**53)) * Fraction(2)**r.randint(-200, 200)
        lo, hi = TAGS[k]
        x = r.random()
        return lo if x < 0.12 else hi if x < 0.24 else 0 if x < 0.3 else hi // 2 + r.randint(0, 1) if x < 0.4 else r.randint(max(lo, -130), min(hi, 300)) if x < 0.6 else r.randint(lo, hi)

    def items(self, n=None):
        n = self.r.choice([0, 1, 2, 3, 5, 8, self.r.randint(0, self.maxlen)]) if n is None else n
        return [self.elem() for _ in range(n)]

    def rng(self, n):
        a = self.r.randint(0, n)
        b = self.r.randint(a, n)
        return a, b


def bounds(r, a, b, n):
    """Optional start and end arguments denoting [a, b)."""
    if b == n:
        if a == 0 and r.random() < 0.5:
            return ""
        if r.random() < 0.5:
            return " %d" % a
    return " %d %d" % (a, b)


def seq(i, seed, big=0):
    r = random.Random("%s/vec/%d/%d" % (seed, i, big))
    kind = r.choice(["v", "v", "v", "u8", "u8"] + list(TAGS))
    g = G(r, kind)
    V = g.name
    mk, length, rf, st = "make-" + V, V + "-length", V + "-ref", V + "-set!"
    if g.byte and r.random() < 0.6:
        V = "bytevector"
        mk, length, rf, st = "make-bytevector", "bytevector-length", "bytevector-u8-ref", "bytevector-u8-set!"
    f = g.name   # spelling for X->list etc.
    vecs = []
    steps = []   # (scheme, model result or None)
    nv = r.randint(1, 3)
    nsteps = r.randint(3, 12) if not big else 3
    lets = []

    def new(expr, items):
        lets.append((expr, None, True))
        vecs.append(Vec(kind, items))

    prog = []   # list of ("def", name, expr) or ("res", expr, value)

    def fresh(expr, items):
        name = "v%d" % len(vecs)
        vecs.append(Vec(kind, items))
        prog.append(("def", name, expr))
        return name

    def construct():
        x = r.random()
        items = g.items(big or None)
        if x < 0.35 and not big:
            fresh("(%s%s)" % (V, "".join(" " + ref(e) for e in items)), items)
        elif x < 0.55:
            e = g.elem()
            n = big or r.randint(0, g.maxlen)
            fresh("(%s %d %s)" % (mk, n, ref(e)), [e] * n)
        elif x < 0.6 and kind == "v" and not big:
            s = [Ch(c) for c in r.choices(CHARS, k=r.randint(0, 9))]
            a, b = g.rng(len(s))
            fresh("(string->vector (string%s)%s)" % ("".join(" " + ref(c) for c in s), bounds(r, a, b, len(s))), s[a:b])
        elif x < 0.7 and g.byte and not big:
            s = [Ch(c) for c in r.choices(CHARS, k=r.randint(0, 9))]
            a, b = g.rng(len(s))
            fresh("(string->utf8 (string%s)%s)" % ("".join(" " + ref(c) for c in s), bounds(r, a, b, len(s))), list("".join(s[a:b]).encode()))
        else:
            fresh("(list->%s (list%s))" % (f, "".join(" " + ref(e) for e in items)), list(items))

    def res(expr, value):
        prog.append(("res", expr, value))

    for _ in range(nv):
        construct()
    copyable = True
    for _ in range(nsteps):
        k = r.randrange(len(vecs))
        v = vecs[k]
        name = "v%d" % k
        n = len(v.items)
        x = r.random()
        if x < 0.2:
            j = r.randrange(len(vecs)) if r.random() < 0.5 else k
            w = vecs[j]
            m = len(w.items)
            a, b = g.rng(m)
            if b - a > n:
                b = a + n
            if r.random() < 0.15:
                a, b = (0, m) if m <= n else (a, b)
            at = r.randint(0, n - (b - a))
            tmp = w.items[a:b]
            v.items[at:at + b - a] = tmp
            res("(begin (%s-copy! %s %d v%d%s) 0)" % (V, name, at, j, bounds(r, a, b, m)), 0)
        elif x < 0.3:
            if n:
                p = r.choice([0, n - 1, r.randrange(n)])
                e = g.elem()
                v.items[p] = e
                res("(begin (%s %s %d %s) 0)" % (st, name, p, ref(e)), 0)
        elif x < 0.38:
            if n:
                p = r.choice([0, n - 1, r.randrange(n)])
                res("(%s %s %d)" % (rf, name, p), v.items[p])
        elif x < 0.42:
            res("(%s %s)" % (length, name), n)
        elif x < 0.5:
            a, b = g.rng(n)
            if len(vecs) < 5:
                fresh("(%s-copy %s%s)" % (V, name, bounds(r, a, b, n)), v.items[a:b])
            else:
                res("(%s-copy %s%s)" % (V, name, bounds(r, a, b, n)), Vec(kind, v.items[a:b]))
        elif x < 0.58:
            js = [r.randrange(len(vecs)) for _ in range(r.randint(0, 3))]
            items = [e for j in js for e in vecs[j].items]
            if len(vecs) < 5 and len(items) < 100:
                fresh("(%s-append%s)" % (V, "".join(" v%d" % j for j in js)), items)
            else:
                res("(%s-append%s)" % (V, "".join(" v%d" % j for j in js)), Vec(kind, items))
        elif x < 0.66:
            a, b = g.rng(n)
            res("(%s->list %s%s)" % (f, name, bounds(r, a, b, n)), v.items[a:b])
        elif x < 0.72:
            j = r.randrange(len(vecs))
            if kind not in ("f32", "f64"):
                res("(equal? %s v%d)" % (name, j), v.items == vecs[j].items and all(type(p) is type(q) for p, q in zip(v.items, vecs[j].items)))
        elif kind == "v":
            if x < 0.8:
                a, b = g.rng(n)
                e = g.elem()
                v.items[a:b] = [e] * (b - a)
                res("(begin (vector-fill! %s %s%s) 0)" % (name, ref(e), bounds(r, a, b, n)), 0)
            elif x < 0.86:
                j = r.randrange(len(vecs))
                w = vecs[j]
                m = min(n, len(w.items))
                q = r.random()
                if q < 0.5:
                    res("(vector-map (lambda (x y) (list y x)) %s v%d)" % (name, j), Vec("v", [[p2, p1] for p1, p2 in zip(v.items, w.items)]))
                else:
                    res("(vector-map (lambda (x) (list x)) %s)" % name, Vec("v", [[p] for p in v.items]))
            elif x < 0.92:
                j = r.randrange(len(vecs))
                w = vecs[j]
                if r.random() < 0.5:
                    res("(begin (set! %%log '()) (vector-for-each (lambda (x y) (%%note x y)) %s v%d) (reverse %%log))" % (name, j), [list(p) for p in zip(v.items, w.items)])
                else:
                    res("(begin (set! %%log '()) (vector-for-each %%note %s) (reverse %%log))" % name, [[p] for p in v.items])
            elif x < 0.96:
                ss = [Ch(c) for c in r.choices(CHARS, k=r.randint(0, 9))]
                a, b = g.rng(len(ss))
                res("(vector->string (vector%s)%s)" % ("".join(" " + ref(c) for c in ss), bounds(r, a, b, len(ss))), tuple(ss[a:b]))
            else:
                # an element is shared, not copied
                if n:
                    p = r.randrange(n)
                    res("(let ((cell (list 1))) (let ((w (vector-copy %s)) (u (make-vector 3 cell))) (vector-set! w %d cell) (let ((z (vector-append u w))) (set-car! cell 7) (list (vector-ref z 1) (eq? cell (vector-ref z %d)) (eq? cell (vector-ref (vector-copy z 1) 0)) (eq? cell (car (vector->list z))))))) " % (name, p, p + 3),
                        [[7], True, True, True])
        elif g.byte and x < 0.85:
            s = "".join(r.choices(CHARS, k=r.randint(0, 9)))
            pre = g.items(r.randint(0, 3))
            post = g.items(r.randint(0, 3))
            bs = pre + list(s.encode()) + post
            a, b = len(pre), len(bs) - len(post)
            res("(utf8->string (bytevector%s)%s)" % ("".join(" %d" % e for e in bs), bounds(r, a, b, len(bs))), tuple(s))
        else:
            j = r.randrange(len(vecs))
            res("(list %s)" % " ".join("(%s? %s)" % (p, name) for p in ["vector"] + [t + "vector" for t in TAGS]), [kind == "v"] + [kind == t for t in TAGS])
    expr, closing = "", ""
    vals = []
    k = 0
    for p in prog:
        if p[0] == "def":
            expr += "(let ((%s %s)) " % (p[1], p[2])
            closing += ")"
        else:
            expr += "(let ((r%d (%%show %s))) " % (k, p[1])
            closing += ")"
            vals.append(out(p[2]))
            k += 1
    expr += "(list %s)" % " ".join(["r%d" % i for i in range(k)] + ["(%%show v%d)" % i for i in range(len(vecs))])
    want = "(%s)" % " ".join(vals + [out(v) for v in vecs])
    return Case(expr + closing, want, ("vector" if kind == "v" else "bytevector" if V == "bytevector" else f) + (" (long)" if big else ""), DEFS)


def construction_matrix():
    """Every type: literal and constructed agree, text is readable, types do not mix."""
    cs = []
    for t, rng in TAGS.items():
        if rng is None:
            continue
        lo, hi = rng
        xs = [lo, hi, 0, 1]
        cs.append(Case("(%%show (%svector %s))" % (t, " ".join(map(str, xs))), out(Vec(t, xs)), "limits", DEFS))
        cs.append(Case("(map (lambda (x) (list (exact-integer? x) (eqv? x %d) (= x %d) (- x %d))) (%svector->list (make-%svector 2 %d)))" % (hi, hi, hi - 1, t, t, hi), "((#t #t #t 1) (#t #t #t 1))", "limits", DEFS))
        cs.append(Case("(map (lambda (x) (list (exact-integer? x) (eqv? x %d) (= x %d) (- x %d))) (%svector->list (make-%svector 2 %d)))" % (lo, lo, lo - 1, t, t, lo), "((#t #t #t 1) (#t #t #t 1))", "limits", DEFS))
        cs.append(Case("(%svector->list (make-%svector 3))" % (t, t), "(0 0 0)", "limits", DEFS))
        for u in TAGS:
            cs.append(Case("(equal? (%svector 1 2) (%svector 1 2))" % (t, u), "#t" if t == u else "#f", "equality across types", DEFS))
        cs.append(Case("(list (equal? (%svector 1 2) (%svector 1 2 3)) (equal? (%svector 1 2) (%svector 1 3)) (equal? (%svector) (%svector)) (equal? (%svector 1 2) '(1 2)))" % (t, t, t, t, t, t, t), "(#f #f #t #f)", "equality within a type", DEFS))
    return cs


def run(ck):
    ck.run_cases(construction_matrix())
    ck.run_cases([seq(i, ck.seed) for i in range(ck.n(12000, 250000))])
    ck.run_cases([seq(i, ck.seed, ck.n(500, 5000)) for i in range(ck.n(60, 1000))], batch=4)
    ck.run_cases(reenter.cases("vector-map", ck.n(400, 4000), ck.seed))
