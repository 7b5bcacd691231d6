"""Flonum arithmetic against Python's IEEE doubles."""
import math, struct, operator
from fractions import Fraction
from vlib import Case
from numgen import *

TECHNIQUE = "monitored execution of generated flonum operations with a differential oracle (IEEE doubles of the host, bit for bit; libm with tolerance)"
NOTE = ("Held on the generated operands only. Sign of a zero sum, difference or negation, = on flonums (or a flonum and a ratio) closer than machine epsilon, and ordering with NaN are outside the claim "
        "(documented choices of the implementation). Trusts Python's float and math.")
RULE = ("operands: special values, halves, powers of two, values around 2^31/2^53/2^63/2^1023, subnormals, random bit patterns, random decimals; mixed with fixnums, bignums and ratios; "
        "results decoded through exact conversion and compared bit for bit (elementary functions within a relative tolerance); distinct by text")

SPECIAL = [math.inf, -math.inf, math.nan]


def fl(rng, special=0.1):
    if rng.random() < special:
        return rng.choice(SPECIAL)
    k = rng.random()
    if k < 0.12:
        return rng.choice((1, -1)) * math.ldexp(1 + rng.choice((0, 0, 2**-52, 0.5, -2**-53)), rng.choice((-1074, -1073, -1022, -1023, -53, -52, -1, 0, 1, 30, 31, 32, 51, 52, 53, 62, 63, 64, 127, 128, 1000, 1023)))
    if k < 0.25:
        return rng.randint(-50, 50) / 2.0
    if k < 0.32:
        return float(rng.choice((1, -1))) * (rng.choice((2**31, 2**32, 2**51, 2**52, 2**53, 2**63)) + rng.choice((-1.5, -1, -0.5, 0, 0.5, 1, 1.5)))
    return flonum(rng)


def bits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def show(v, zero_sign=True):
    """Representation delivered by (%fl x): exact value, or a name for what has none."""
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return "pinf" if v > 0 else "minf"
    if v == 0:
        return ("mz" if math.copysign(1, v) < 0 else "pz") if zero_sign else "0"
    return ex(Fraction(v))


DEFS = """
(define (%fl x)
  (cond ((not (number? x)) (list 'not-a-number x))
        ((exact? x) (list 'exact x))
        ((nan? x) 'nan)
        ((infinite? x) (if (positive? x) 'pinf 'minf))
        ((zero? x) (if (= 1 (flsign-bit x)) 'mz 'pz))
        (else (exact x))))
(define (%fz x) (let ((r (%fl x))) (if (or (eq? r 'mz) (eq? r 'pz)) 0 r)))
"""


def atom(v, sign=True):
    s = show(v, sign)
    # names that look like numbers come out as symbols written with bars
    return s


def flw(vals, zs=True):
    out = []
    for v in vals:
        if isinstance(v, bool):
            out.append("#t" if v else "#f")
        elif isinstance(v, (int, Fraction)):
            out.append("(exact %s)" % ex(v))
        elif isinstance(v, float):
            out.append(show(v, zs))
        else:
            out.append(str(v))
    return "(" + " ".join(out) + ")"


def ar(f):
    try:
        return f()
    except OverflowError:
        return None
    except ZeroDivisionError:
        return None


def fdiv(a, c):
    if c == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, math.copysign(1, a) * math.copysign(1, c))
    return a / c


def tofl(x):
    if isinstance(x, float):
        return x
    try:
        return float(x) if isinstance(x, int) else x.numerator / x.denominator
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def near(v, rel=4e-15, absol=1e-300):
    """Decimal output; compare as floats with a tolerance."""
    def f(kind, text):
        if kind != "V":
            return "expected a number near %r" % v
        try:
            y = parse_float(text)
        except ValueError:
            return "expected a number near %r" % v
        if math.isnan(v):
            return None if math.isnan(y) else "expected NaN"
        if math.isinf(v):
            return None if y == v else "expected %r" % v
        if abs(y - v) <= rel * abs(v) + absol:
            return None
        return "expected %r" % v
    return f


def rnd(x):
    return float(round(x)) if abs(x) < 2**53 else x


def sgn0(r, x):
    return math.copysign(r, x) if r == 0 else r


def cases(rng, n):
    out = []

    def add(e, vals, tag, zs=True):
        out.append(Case(e, flw(vals, zs), tag, defs=DEFS))

    F, Z = "%fl", "%fz"
    for i in range(n):
        a, c = fl(rng), fl(rng)
        if rng.random() < 0.1:
            c = rng.choice((a, -a, math.nextafter(a, 0), math.nextafter(a, math.inf)))
        A, C = lit(a), lit(c)
        add("(map %%fz (list (+ %s %s) (- %s %s)))" % (A, C, A, C), [a + c, a - c], "add", False)
        add("(map %%fl (list (* %s %s) (/ %s %s)))" % (A, C, A, C), [a * c, fdiv(a, c)], "mul")
        # n-ary, left to right
        vs = [fl(rng, 0.02) for _ in range(rng.choice((3, 4)))]
        s = " ".join(map(lit, vs))
        t, p, d = vs[0], vs[0], vs[0]
        for x in vs[1:]:
            t += x; p *= x; d -= x
        add("(map %%fz (list (+ %s) (* %s) (- %s)))" % (s, s, s), [t, p, d], "n-ary", False)
        # contagion
        x = rng.choice((integer, exact, ratio))(rng)
        f = fl(rng, 0.05)
        xf = tofl(x)
        if x != 0:
            X, FF = lit(x), lit(f)
            if rng.random() < 0.5:
                X, FF, u, v = FF, X, f, xf
            else:
                u, v = xf, f
            add("(map %%fz (list (+ %s %s) (- %s %s) (* %s %s) (/ %s %s)))" % ((X, FF) * 4), [u + v, u - v, u * v, fdiv(u, v)], "contagion", False)
        # exactness conversions
        if math.isfinite(a):
            add("(let ((x (exact %s))) (list (exact? x) (= x %s) (%%fl (inexact x)) (number->string x)))" % (A, ex(Fraction(a))), ["#t #t " + (show(a) if a else "pz") + ' "%s"' % ex(Fraction(a))], "exact")
        add("(list (%%fl (inexact %s)))" % lit(x), [xf if x else 0.0], "inexact")
        # rounding
        r = fl(rng, 0.03)
        if math.isfinite(r):
            fv = [sgn0(float(math.floor(r)), r), sgn0(float(math.ceil(r)), r), sgn0(float(math.trunc(r)), r), sgn0(float(round(r)), r)]
        else:
            fv = [r] * 4
        R = lit(r)
        add("(map %%fl (list (floor %s) (ceiling %s) (truncate %s) (round %s)))" % (R, R, R, R), fv, "rounding")
        add("(map %%fl (list (abs %s) (magnitude %s) (square %s)))" % (R, R, R), [abs(r), abs(r), r * r], "abs")
        # predicates
        isint = math.isfinite(a) and a == math.floor(a)
        pr = [math.isfinite(a), math.isinf(a), math.isnan(a), a == 0, a > 0, a < 0, isint, math.isfinite(a), True, True, False, True, False]
        add("(let ((x %s)) (list (finite? x) (infinite? x) (nan? x) (zero? x) (positive? x) (negative? x) (integer? x) (rational? x) (real? x) (number? x) (exact? x) (inexact? x) (exact-integer? x)))" % A, pr, "predicates")
        if isint:
            add("(list (even? %s) (odd? %s))" % (A, A), [a % 2 == 0, a % 2 == 1], "parity")
        # comparisons
        y = rng.choice((c, x, a, -a)) if rng.random() < 0.7 else (Fraction(a) + rng.choice((0, Fraction(1, 3), Fraction(1, 10**40), -1, 1)) if math.isfinite(a) else c)
        if not (math.isnan(a) or (isinstance(y, float) and math.isnan(y))):
            ea = a if math.isinf(a) else Fraction(a)
            ey = y if isinstance(y, float) and math.isinf(y) else Fraction(y)
            p, q, P, Q = (lit(a), lit(y), ea, ey) if rng.random() < 0.5 else (lit(y), lit(a), ey, ea)
            add("(list (< %s %s) (> %s %s) (<= %s %s) (>= %s %s))" % ((p, q) * 4), [P < Q, P > Q, P <= Q, P >= Q], "order")
            if P == Q or math.isinf(P) or math.isinf(Q) or abs(P - Q) > Fraction(1, 2**50) + (abs(P) / 2**50 if P.denominator > 1 or Q.denominator > 1 else 0):
                add("(list (= %s %s))" % (p, q), [P == Q], "equal")
            m, mi = max(tofl(a), tofl(y)), min(tofl(a), tofl(y))
            if a != 0 or y != 0:
                add("(map %%fz (list (max %s %s) (min %s %s)))" % ((p, q) * 2), [float(m), float(mi)], "max", False)
        three = [fl(rng, 0) for _ in range(3)]
        if rng.random() < 0.4:
            three.sort()
        s = " ".join(map(lit, three))
        add("(list (< %s) (> %s) (<= %s) (>= %s))" % (s, s, s, s), [three[0] < three[1] < three[2], three[0] > three[1] > three[2], three[0] <= three[1] <= three[2], three[0] >= three[1] >= three[2]], "order n-ary")
        nn = lit(rng.choice((c, x)))
        add("(list (< +nan.0 %s) (> +nan.0 %s) (< %s +nan.0) (> %s +nan.0) (positive? +nan.0) (negative? +nan.0) (integer? +nan.0))" % (nn, nn, nn, nn), [False] * 7, "nan")
        # sqrt
        if a >= 0:
            add("(list (%%fl (sqrt %s)))" % A, [math.sqrt(a)], "sqrt")
        # eqv? distinguishes exactness and values
        if not math.isnan(a):
            w = rng.choice((a, math.nextafter(a, 0), -a))
            add("(list (eqv? %s %s) (eqv? %s (exact 5)) (equal? %s %s))" % (A, lit(w), A, A, lit(w)), [a == w and bits(a) == bits(w), False, a == w and bits(a) == bits(w)], "eqv")
            if math.isfinite(a):
                add("(list (eqv? %s (exact %s)))" % (A, A), [False], "eqv")
        if math.isfinite(a):
            # SRFI 144
            e2 = rng.randint(-1100, 1100)
            m, ee = math.frexp(a)
            d = fl(rng, 0)
            fr, ip = math.modf(a)
            add("(map %%fl (list (fladjacent %s %s) (flcopysign %s %s) (make-flonum %s %d) (flabsdiff %s %s)))" % (A, lit(d), A, lit(d), A, e2, A, lit(d)),
                [math.nextafter(a, d), math.copysign(a, d), ar(lambda: math.ldexp(a, e2)) if ar(lambda: math.ldexp(a, e2)) is not None else math.copysign(math.inf, a), abs(a - d)], "srfi 144")
            add("(call-with-values (lambda () (flnormalized-fraction-exponent %s)) (lambda (m e) (list (%%fl m) e)))" % A, [m, str(ee)], "srfi 144")
            add("(call-with-values (lambda () (flinteger-fraction %s)) (lambda (m e) (list (%%fl m) (%%fl e))))" % A, [ip, fr], "srfi 144")
            add("(list (flsign-bit %s) (flonum? %s) (flonum? 1) (flnormalized? %s) (fldenormalized? %s) (flinteger? %s) (flunordered? %s 1.0) (flunordered? %s +nan.0))" % ((A,) * 7),
                [str(int(math.copysign(1, a) < 0)), True, False, abs(a) >= 2.2250738585072014e-308, 0 < abs(a) < 2.2250738585072014e-308, isint, False, True], "srfi 144")
            if a != 0:
                add("(list (%%fl (flexponent %s)) (flinteger-exponent %s) (%%fl (flsgn %s)))" % (A, A, A), [float(ee - 1), str(ee - 1), math.copysign(1.0, a)], "srfi 144")
                fa = Fraction(a)
                if abs(a) < 1e15 and abs(a) > 1e-5:
                    add("(map %%fl (list (flnumerator %s) (fldenominator %s)))" % (A, A), [tofl(fa.numerator), tofl(fa.denominator)], "srfi 144")
            mm = [fl(rng, 0) for _ in range(3)]
            s = " ".join(map(lit, mm))
            add("(map %%fz (list (flmax %s) (flmin %s)))" % (s, s), [max(mm), min(mm)], "srfi 144", False)
            add("(map %%fz (list (flposdiff %s %s)))" % (A, lit(d)), [max(a - d, 0.0)], "srfi 144", False)
            g = [rng.uniform(-1e3, 1e3) if rng.random() < 0.5 else float(rng.randint(-2**30, 2**30)) for _ in range(3)]
            fma = float(Fraction(g[0]) * Fraction(g[1]) + Fraction(g[2]))
            add("(list (%%fz (fl+* %s %s %s)))" % tuple(map(lit, g)), [fma], "srfi 144", False)
    # elementary functions
    for i in range(n):
        x = rng.choice((rng.uniform(-1, 1), rng.uniform(-10, 10), rng.uniform(-300, 300), float(rng.randint(-20, 20)), rng.uniform(-1, 1) * 10.0 ** rng.randint(-15, 4)))
        table = [("exp", math.exp, abs(x) < 300), ("sin", math.sin, True), ("cos", math.cos, True), ("tan", math.tan, True), ("atan", math.atan, True),
                 ("log", math.log, x > 0), ("asin", math.asin, abs(x) <= 1), ("acos", math.acos, abs(x) <= 1), ("flsinh", math.sinh, abs(x) < 300),
                 ("flcosh", math.cosh, abs(x) < 300), ("fltanh", math.tanh, True), ("flasinh", math.asinh, True), ("flacosh", math.acosh, x >= 1), ("flatanh", math.atanh, abs(x) < 1),
                 ("flexp-1", math.expm1, abs(x) < 300), ("fllog1+", math.log1p, x > -1), ("flerf", math.erf, True), ("flerfc", math.erfc, x < 20),
                 ("flgamma", math.gamma, 0 < x < 100), ("flexp", math.exp, abs(x) < 300), ("flsqrt", math.sqrt, x >= 0), ("flsin", math.sin, True), ("flcos", math.cos, True), ("fltan", math.tan, True),
                 ("flasin", math.asin, abs(x) <= 1), ("flacos", math.acos, abs(x) <= 1), ("flatan", math.atan, True), ("fllog", math.log, x > 0)]
        for name, f, ok in rng.sample(table, 5):
            if ok:
                out.append(Case("(%s %s)" % (name, lit(x)), near(f(x), 1e-14), name, defs=DEFS))
        if x > 0 and abs(x - 1) > 1e-3:
            bs = rng.choice((2, 10, 3, 7, 2.5))
            out.append(Case("(log %s %s)" % (lit(x), bs), near(math.log(x) / math.log(bs), 1e-13), "log2", defs=DEFS))
            out.append(Case("(list (< (abs (- (fllog2 %s) %s)) 1e-10) (< (abs (- (fllog10 %s) %s)) 1e-10) (< (abs (- ((make-fllog-base 3.0) %s) %s)) 1e-10))" % (lit(x), repr(math.log2(x)), lit(x), repr(math.log10(x)), lit(x), repr(math.log(x) / math.log(3))), "(#t #t #t)", "fllog", defs=DEFS))
            y = rng.uniform(-20, 20)
            if abs(y * math.log(x)) < 600:
                out.append(Case("(expt %s %s)" % (lit(x), lit(y)), near(x ** y, 1e-13), "expt", defs=DEFS))
            out.append(Case("(flcbrt %s)" % lit(x), near(x ** (1 / 3), 1e-13), "flcbrt", defs=DEFS))
        k = rng.randint(0, 20) if x == 0 else rng.randint(-20, 20)
        if x == 0 or abs(k * math.log(abs(x))) < 600:
            out.append(Case("(inexact (expt %s %d))" % (lit(x), k), near(x ** k, 1e-13), "expt", defs=DEFS))
        y, z = rng.choice((x, 0.0, -0.0, rng.uniform(-5, 5))), rng.choice((0.0, -0.0, 1.0, -1.0, rng.uniform(-5, 5)))
        if not (y == 0 and z == 0):
            out.append(Case("(atan %s %s)" % (lit(y), lit(z)), near(math.atan2(y, z), 1e-14), "atan2", defs=DEFS))
        h = rng.uniform(-1e5, 1e5)
        out.append(Case("(flhypot %s %s)" % (lit(x), lit(h)), near(math.hypot(x, h), 1e-13), "flhypot", defs=DEFS))
        q = rng.randint(-40, 40)
        if q > 0:
            ra = Fraction(rng.randint(1, 1000), q)
            name, f = rng.choice((("exp", math.exp), ("sin", math.sin), ("cos", math.cos), ("atan", math.atan), ("log", math.log), ("sqrt", math.sqrt)))
            v = float(ra)
            if not (name == "exp" and v > 300):
                out.append(Case("(inexact (%s %s))" % (name, ex(ra)), near(f(v), 1e-14, 1e-14), name + " exact argument", defs=DEFS))
    return out


def run(ck):
    ck.run_known()
    ck.run_cases(cases(ck.rng, ck.n(1500, 20000)), batch=60)
