"""Generators and renderings of numbers, shared by the numeric checks."""
import sys
from fractions import Fraction
sys.set_int_max_str_digits(0)
import math, struct

B31 = 1 << 31
EDGES = sorted({s * (b + d) for b in (0, 1, 2, 3, 5, 7, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 23, 1 << 24,
                (1 << 30), B31, 1 << 32, 10**9, 46340, 46341, 3037000499, 1 << 47, 1 << 48, 1 << 52, 1 << 53, 1 << 54, 10**15, 1 << 61, 1 << 62, 1 << 63, 1 << 64, 10**18, 10**19, 10**20,
                1 << 96, 1 << 127, 1 << 128, 10**30) for d in (-2, -1, 0, 1, 2) for s in (1, -1)})


def integer(rng, big=400):
    k = rng.random()
    if k < 0.3:
        return rng.choice(EDGES)
    if k < 0.5:
        return rng.randint(-20, 20)
    if k < 0.65:
        return rng.randint(-B31 - 5, B31 + 5)
    if k < 0.8:
        b = rng.choice((31, 32, 33, 47, 53, 62, 63, 64, 65))
        return rng.randint(-(1 << b), 1 << b)
    n = rng.randint(1, big)
    v = rng.getrandbits(n)
    return -v if rng.random() < 0.5 else v


def ratio(rng):
    while True:
        k = rng.random()
        if k < 0.5:
            n, d = rng.randint(-30, 30), rng.randint(1, 20)
        elif k < 0.75:
            n, d = integer(rng, 120), rng.randint(1, 1000)
        else:
            n, d = integer(rng, 120), abs(integer(rng, 120)) or 1
        f = Fraction(n, d)
        if f.denominator != 1:
            return f


def exact(rng):
    return Fraction(integer(rng)) if rng.random() < 0.65 else ratio(rng)


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -1.5, -2.5, 0.1, 1e10, -1e10, 1e15, 1e16, 1e17, 4503599627370495.5,
          4503599627370496.0, 9007199254740992.0, 9007199254740991.0, 9007199254740994.0, 2.0**31, -2.0**31, 2.0**31 - 1, 2.0**32, 2.0**63,
          2.0**64, 1e20, 1e21, 1e22, 1e23, 1e100, 1e300, -1e300, 1.7976931348623157e308, 1e-5, 1e-10, 1e-300, 2.2250738585072014e-308,
          5e-324, 3.141592653589793, 2.718281828459045, 123456.789, 1 / 3, 2 / 3, 1e-7, 123456789012345680.0]


def flonum(rng, finite=True):
    k = rng.random()
    if k < 0.3:
        return rng.choice(FLOATS)
    if k < 0.5:
        return rng.uniform(-100, 100)
    if k < 0.6:
        return float(rng.randint(-10**6, 10**6)) / rng.choice((1, 2, 4, 8))
    if k < 0.75:
        return rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)
    while True:
        x = struct.unpack("<d", struct.pack("<Q", rng.getrandbits(64)))[0]
        if math.isfinite(x):
            return x


def lit(x):
    """Scheme literal of a Python number (Fraction/int exact, float inexact)."""
    if isinstance(x, float):
        if math.isnan(x):
            return "+nan.0"
        if math.isinf(x):
            return "+inf.0" if x > 0 else "-inf.0"
        s = repr(x)
        return s if ("." in s or "e" in s) else s + ".0"
    x = Fraction(x)
    return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)


def ex(x):
    """External representation of an exact number."""
    x = Fraction(x)
    return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)


def b(x):
    return "#t" if x else "#f"


def parse_float(s):
    if s in ("+inf.0", "-inf.0", "+nan.0", "-nan.0"):
        return float(s[:-2])
    return float(s)


def same_float(x, y):
    return struct.pack("<d", x) == struct.pack("<d", y) or (math.isnan(x) and math.isnan(y))


def want_float(*vals):
    """The value is an inexact number equal (bit for bit) to one of vals; the
    expression must be of the form (cons (inexact? r) r)."""
    def f(kind, text):
        if kind != "V":
            return "expected a value"
        if not (text.startswith("(#t . ") and text.endswith(")")):
            return "expected an inexact number"
        try:
            y = parse_float(text[6:-1])
        except ValueError:
            return "not a number: " + text
        if any(same_float(v, y) for v in vals):
            return None
        return "expected %s" % " or ".join(map(repr, vals))
    return f


def want_near(v, ulps):
    def f(kind, text):
        if kind != "V" or not (text.startswith("(#t . ") and text.endswith(")")):
            return "expected an inexact number"
        try:
            y = parse_float(text[6:-1])
        except ValueError:
            return "not a number: " + text
        if same_float(v, y) or (math.isfinite(v) and math.isfinite(y) and abs(v - y) <= ulps * math.ulp(max(abs(v), abs(y)))):
            return None
        return "expected %r within %s ulps" % (v, ulps)
    return f


def inx(e):
    return "(let ((r %s)) (cons (inexact? r) r))" % e
