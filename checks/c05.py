"""Exact arithmetic against Python's integers and fractions."""
from fractions import Fraction
from vlib import Case
from numgen import *

RULE = ("random expressions over exact integers (fixnum/bignum edges at 2^31, 2^32, 2^53, 2^63, 2^64, random up to 400 bits) and ratios; "
        "each evaluated by the interpreter and compared with the same computation in Python integers/fractions; "
        "non-trivial: at least one operation on non-constant-folded operands, distinct by its text")


TECHNIQUE = "monitored execution of generated programs with a differential oracle (Python int/Fraction)"
NOTE = "Held on the generated expressions only; trusts Python's integers and fractions and the interpreter's printing of exact numbers."


def tree(rng, depth, leaf):
    if depth == 0 or rng.random() < 0.2:
        x = leaf(rng)
        return lit(x), Fraction(x)
    op = rng.choice("+-*+-*/")
    k = rng.choice((1, 2, 2, 2, 3, 4)) if op in "+*" else rng.choice((1, 2, 2, 3))
    while True:
        args = [tree(rng, depth - 1, leaf) for _ in range(k)]
        vs = [a[1] for a in args]
        if op == "+":
            v = sum(vs, Fraction(0))
        elif op == "*":
            v = Fraction(1)
            for x in vs:
                v *= x
        elif op == "-":
            v = -vs[0] if k == 1 else vs[0] - sum(vs[1:], Fraction(0))
        else:
            d = vs if k == 1 else vs[1:]
            if any(x == 0 for x in d):
                continue
            v = 1 / vs[0] if k == 1 else vs[0]
            for x in vs[1:]:
                v /= x
        return "(%s %s)" % (op, " ".join(a[0] for a in args)), v


def cases(rng, n):
    out = []
    for i in range(n):
        # small results of big intermediate values matter: (- big big)
        leaf = rng.choice((integer, exact, ratio))
        e, v = tree(rng, rng.randint(1, 3), leaf)
        out.append(Case(e, ex(v), "arithmetic"))
        if i % 2:
            w = v + rng.choice((1, -1, Fraction(1, 2), v, 1 << 31, 1 << 64))
            out.append(Case("(let ((r %s)) (list (eqv? r %s) (equal? %s r) (= r %s) (eqv? r %s) (equal? %s r)))" % (e, ex(v), ex(v), ex(v), ex(w), ex(w)),
                            "(#t #t #t %s %s)" % (b(v == w), b(v == w)), "equivalence"))
        if i % 3 == 0:
            out.append(Case("(let ((r %s)) (list r (exact? r) (integer? r) (exact-integer? r) (rational? r) (zero? r) (positive? r) (negative? r)))" % e,
                            "(%s #t %s %s #t %s %s %s)" % (ex(v), b(v.denominator == 1), b(v.denominator == 1), b(v == 0), b(v > 0), b(v < 0)), "predicates"))
        if i % 2 == 0:
            k = rng.choice((2, 2, 3, 4))
            base = leaf(rng)
            vs = []
            for _ in range(k):
                r = rng.random()
                vs.append(Fraction(base) if r < 0.4 else Fraction(base) + rng.choice((-1, 1, Fraction(1, 3))) if r < 0.6 else Fraction(leaf(rng)))
            if rng.random() < 0.3:
                vs.sort(reverse=rng.random() < 0.5)
            import operator
            res = []
            for f in (operator.eq, operator.lt, operator.gt, operator.le, operator.ge):
                res.append(all(f(x, y) for x, y in zip(vs, vs[1:])))
            a = " ".join(map(lit, vs))
            out.append(Case("(list (= %s) (< %s) (> %s) (<= %s) (>= %s) (max %s) (min %s))" % ((a,) * 7),
                            "(%s %s %s)" % (" ".join(map(b, res)), ex(max(vs)), ex(min(vs))), "comparison"))
        if i % 2 == 1:
            x = leaf(rng)
            x = Fraction(x)
            k = rng.choice((0, 1, 2, 3, 5, 7, 13, 31, 33, 40, 64, 100, -1, -2, -5))
            if not (x == 0 and k < 0):
                out.append(Case("(list (abs %s) (square %s) (numerator %s) (denominator %s) (- %s) (exact %s))" % ((lit(x),) * 6),
                                "(%s %s %s %s %s %s)" % (ex(abs(x)), ex(x * x), x.numerator, x.denominator, ex(-x), ex(x)), "unary"))
                out.append(Case("(expt %s %d)" % (lit(x), k), ex(x ** k), "expt"))
        if i % 2 == 0:
            x = Fraction(leaf(rng))
            out.append(Case("(list (floor %s) (ceiling %s) (truncate %s) (round %s))" % ((lit(x),) * 4),
                            "(%d %d %d %d)" % (x.__floor__(), x.__ceil__(), x.__trunc__(), round(x)), "rounding"))
        if i % 4 == 0:
            x = integer(rng)
            out.append(Case("(list (even? %d) (odd? %d))" % (x, x), "(%s %s)" % (b(x % 2 == 0), b(x % 2 == 1)), "parity"))
    return out


def run(ck):
    ck.run_known()
    ck.run_cases(cases(ck.rng, ck.n(4000, 60000)))
