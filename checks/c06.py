"""Integer division families, gcd, lcm, exact-integer-sqrt against Python's integers."""
import math
from fractions import Fraction
from vlib import Case
from numgen import *

TECHNIQUE = "monitored execution of generated operand pairs with a differential oracle (Python integers) and law checks"
NOTE = "Held on the generated pairs only; trusts Python's integers. Flonum operands are limited to integers of magnitude below 2^53."
RULE = ("pairs (n, d) around representation boundaries, multiples of d plus/minus small offsets, exact halves, random up to 300 bits, all signs, mixed sizes; "
        "all 18 division procedures plus quotient/remainder/modulo, gcd/lcm of 0..4 arguments, exact-integer-sqrt around squares, division by zero under a handler; distinct by text")


def pair(rng):
    while True:
        d = integer(rng, 200)
        if d == 0:
            d = rng.choice((1, -1, 2, -2, 3, -3))
        k = rng.random()
        if k < 0.35:
            n = integer(rng, 300)
        elif k < 0.6:
            n = d * integer(rng, 100) + rng.choice((-2, -1, 0, 1, 2))
        elif k < 0.8:   # around halves
            d = d * 2 if rng.random() < 0.7 else d
            n = d * rng.randint(-50, 50) + d // 2 + rng.choice((-1, 0, 0, 0, 1))
        else:
            n, d = rng.randint(-30, 30), rng.choice((-7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 10))
        return n, d


def fam(n, d):
    F = Fraction(n, d)
    fl = n // d
    ce = -((-n) // d)
    tr = fl if F >= 0 else ce
    ro = round(F)
    eu = fl if d > 0 else ce
    # balanced: -|d/2| <= r < |d/2|
    ad = abs(d)
    r = (n + ad // 2) % ad - ad // 2 if ad % 2 == 0 else (n + (ad - 1) // 2) % ad - (ad - 1) // 2
    ba = (n - r) // d
    assert ba * d + r == n and -Fraction(ad, 2) <= r < Fraction(ad, 2)
    return dict(floor=fl, ceiling=ce, truncate=tr, round=ro, euclidean=eu, balanced=ba)


def flo(v):
    return v


def cases(ck, rng, n):
    out = []
    for i in range(n):
        a, d = pair(rng)
        f = fam(a, d)
        names = list(f)
        for name in rng.sample(names, 3):
            q = f[name]
            r = a - q * d
            out.append(Case("(call-with-values (lambda () (%s/ %d %d)) (lambda (q r) (list q r (%s-quotient %d %d) (%s-remainder %d %d))))" % (name, a, d, name, a, d, name, a, d),
                            "(%d %d %d %d)" % (q, r, q, r), name))
        tq, fq = f["truncate"], f["floor"]
        out.append(Case("(list (quotient %d %d) (remainder %d %d) (modulo %d %d))" % (a, d, a, d, a, d),
                        "(%d %d %d)" % (tq, a - tq * d, a - fq * d), "quotient"))
        k = rng.choice((0, 1, 2, 2, 2, 3, 4))
        g = integer(rng, 60)
        vs = [integer(rng, 150) * rng.choice((1, g)) for _ in range(k)]
        if rng.random() < 0.2 and vs:
            vs[rng.randrange(len(vs))] = 0
        s = " ".join(map(str, vs))
        out.append(Case("(list (gcd %s) (lcm %s))" % (s, s), "(%d %d)" % (math.gcd(*vs), math.lcm(*vs)), "gcd"))
        if i % 2:
            s = abs(integer(rng, 150))
            x = s * s + rng.choice((0, 0, -1, 1, s, 2 * s, rng.randint(0, 2 * s))) if s else 0
            x = max(0, x)
            q = math.isqrt(x)
            out.append(Case("(call-with-values (lambda () (exact-integer-sqrt %d)) list)" % x, "(%d %d)" % (q, x - q * q), "isqrt"))
            x = rng.randint(0, 1 << rng.choice((8, 20, 31, 40, 80)))
            out.append(Case("(let ((r (sqrt %s))) (list r (exact? r)))" % ex(x * x), "(%s #t)" % ex(x), "exact-sqrt"))
        if i % 3 == 0:
            # inexact integers: same quotients as flonums
            a = rng.randint(-2**20, 2**20)
            d = rng.randint(-2**12, 2**12) or 7
            if rng.random() < 0.5:
                a = d * rng.randint(-1000, 1000) + rng.choice((0, d // 2))
            f = fam(a, d)
            name = rng.choice(("floor", "truncate", "ceiling", "round", "euclidean", "balanced"))
            q = f[name]
            r = a - q * d
            p1, p2 = rng.choice((("%d.0", "%d"), ("%d", "%d.0"), ("%d.0", "%d.0")))
            A, D = p1 % a, p2 % d
            out.append(Case("(call-with-values (lambda () (%s/ %s %s)) (lambda (q r) (list (inexact? q) (inexact? r) (= q %d) (= r %d) (= (%s-quotient %s %s) %d) (= (%s-remainder %s %s) %d))))" % (name, A, D, q, r, name, A, D, q, name, A, D, r),
                            "(#t #t #t #t #t #t)", "inexact " + name))
            tq, fq = f["truncate"], f["floor"]
            out.append(Case("(list (= %d (quotient %s %s)) (= %d (remainder %s %s)) (= %d (modulo %s %s)) (map inexact? (list (quotient %s %s) (remainder %s %s) (modulo %s %s))))" % (tq, A, D, a - tq * d, A, D, a - fq * d, A, D, A, D, A, D, A, D),
                            "(#t #t #t (#t #t #t))", "inexact quotient"))
            out.append(Case("(list (= %d (gcd %s %s)) (= %d (lcm %s %s)))" % (math.gcd(a, d), A, D, math.lcm(a, d), A, D), "(#t #t)", "inexact gcd"))
        if i % 8 == 0:
            a = integer(rng, 200)
            op = rng.choice(("/", "quotient", "remainder", "modulo", "floor/", "truncate/", "floor-quotient", "floor-remainder", "truncate-quotient",
                             "truncate-remainder", "ceiling-quotient", "round-quotient", "euclidean-quotient", "balanced-quotient", "/1", "exact-rational/"))
            e = {"/1": "(/ 0)", "exact-rational/": "(/ %s 0)" % ex(ratio(rng))}.get(op, "(%s %d 0)" % (op, a))
            out.append(Case("(with-exception-handler (lambda (e) 'none) (lambda () (guard (e (#t (list 'caught (error-object? e)))) %s)))" % e, "(caught #t)", "zero"))
            out.append(Case("(let ((z (- %d %d))) (list (guard (e (#t 'caught)) (quotient %d z)) (guard (e (#t 'caught)) (modulo %d z)) (guard (e (#t 'caught)) (/ %d z)) (+ z 1)))" % (a, a, a, a, a), "(caught caught caught 1)", "zero"))
    # products and rational reconstruction: (n/d)*d == n, numerator/denominator in lowest terms
    for i in range(n // 4):
        a, d = pair(rng)
        F = Fraction(a, d)
        out.append(Case("(let ((x (/ %d %d))) (list (numerator x) (denominator x) (* x %d) (gcd (numerator x) (denominator x))))" % (a, d, d),
                        "(%d %d %d 1)" % (F.numerator, F.denominator, a), "lowest terms"))
    return out


def run(ck):
    ck.run_known()
    ck.run_cases(cases(ck, ck.rng, ck.n(2000, 40000)))
