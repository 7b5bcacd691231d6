"""Numbers and their textual representations."""
import math, re
from fractions import Fraction
from vlib import Case, scm_string
from numgen import *
from c08 import DEFS, show, fl, tofl

TECHNIQUE = "monitored execution of generated literals and conversions with a differential oracle (Python's correctly rounded parser and integer formatting) and round trips"
NOTE = ("Held on the generated literals only; exactness prefix #e only on dyadic decimals, flonums only in radix 10, infinities and NaN in lower case, strings without prefix. "
        "Trusts Python's float().")
RULE = ("exact numbers in radices 2/8/10/16, finite flonums of all magnitudes, literals spelled in every way the grammar allows (signs, leading zeros, missing integer or fraction part, exponents, prefixes in both orders and cases, rectangular complex), "
        "read from program text and through string->number, and mutated non-literals; distinct by text")

DIG = "0123456789abcdefghijklmnopqrstuvwxyz"


def radix_str(n, r):
    if n < 0:
        return "-" + radix_str(-n, r)
    if n == 0:
        return "0"
    out = []
    while n:
        n, d = divmod(n, r)
        out.append(DIG[d])
    return "".join(reversed(out))


def rat_str(x, r):
    x = Fraction(x)
    s = radix_str(x.numerator, r)
    return s if x.denominator == 1 else s + "/" + radix_str(x.denominator, r)


def digits(rng, n):
    return "".join(rng.choice("0123456789") for _ in range(n))


def decimal(rng):
    """A decimal literal (inexact)."""
    k = rng.random()
    i = digits(rng, rng.choice((1, 1, 2, 3, 6, 17, 20, 40))) if rng.random() < 0.9 else ""
    f = digits(rng, rng.choice((1, 1, 2, 3, 17, 25, 40)))
    if k < 0.45:
        m = i + "." + f
    elif k < 0.6:
        m = (i or "0") + "."
    elif k < 0.7:
        m = "." + f
    else:
        m = i or "7"
    e = ""
    if "." not in m or rng.random() < 0.5:
        e = rng.choice("eeeE") + rng.choice(("", "+", "-")) + rng.choice((str(rng.randint(0, 30)), str(rng.randint(0, 330)), "0", "00" + str(rng.randint(1, 20)), "308", "324", "400"))
    return rng.choice(("", "", "+", "-")) + m + e


def case_flip(rng, s):
    k = rng.random()
    return s if k < 0.5 else s.upper() if k < 0.8 else "".join(c.upper() if rng.random() < 0.5 else c for c in s)


def fl_of(s):
    return float(s)


DEC = r"(?:[0-9]+|[0-9]+\.[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?"
UREAL = r"(?:%s|[0-9]+/[0-9]+)" % DEC
REAL = r"(?:[+-]?%s|[+-](?:inf|nan)\.0)" % UREAL
IMAG = r"[+-](?:%s|(?:inf|nan)\.0)?" % UREAL
NUMBER = re.compile(r"(?:%s|(?:%s)?%si|%s@%s)" % (REAL, REAL, IMAG, REAL, REAL))


def zero_den(s):
    return re.search(r"/0+(?![0-9])", s)


def cases(rng, n):
    out = []

    def add(e, w, tag):
        out.append(Case(e, w, tag, defs=DEFS))

    for i in range(n):
        x = rng.choice((integer, exact, ratio))(rng)
        r = rng.choice((2, 8, 10, 16))
        X, S = lit(x), rat_str(x, r)
        rr = " %d" % r if r != 10 or rng.random() < 0.3 else ""
        add("(let ((s (number->string %s%s))) (list s (let ((z (string->number s%s))) (list (exact? z) (eqv? z %s) (equal? z %s)))))" % (X, rr, rr, X, X), '("%s" (#t #t #t))' % S, "exact round trip")
        add("(let ((s (number->string %s %d))) (let ((z (read (open-input-string (string-append \"#%s\" s))))) (list (eqv? z %s) (exact? z))))" % (X, r, {2: "b", 8: "o", 10: "d", 16: "x"}[r], X), "(#t #t)", "exact round trip by read")
        # literals with prefixes
        t = case_flip(rng, S)
        if rng.random() < 0.3 and x >= 0:
            t = "+" + t
        if rng.random() < 0.3:
            t = re.sub(r"^([+-]?)", r"\g<1>" + "0" * rng.randint(1, 5), t)
        if rng.random() < 0.3 and Fraction(x).denominator != 1:
            k = rng.randint(2, 9)
            t = radix_str(Fraction(x).numerator * k, r) + "/" + radix_str(Fraction(x).denominator * k, r)
        rp = {2: "#b", 8: "#o", 10: "#d", 16: "#x"}[r]
        rp = case_flip(rng, rp)
        add("(list (eqv? '%s%s %s) (exact? %s%s))" % (rp if r != 10 or rng.random() < 0.5 else "", t, X, rp, t), "(#t #t)", "radix literal")
        add("(let ((z (string->number %s %d))) (list (eqv? z %s) (exact? z)))" % (scm_string(t), r, X), "(#t #t)", "string->number radix")
        ep = rng.choice(("#e", "#i", "#E", "#I"))
        pre = ep + rp if rng.random() < 0.5 else rp + ep
        if ep in ("#e", "#E"):
            add("(list (eqv? %s%s %s) (exact? '%s%s))" % (pre, t, X, pre, t), "(#t #t)", "prefixes")
        else:
            f = tofl(x)
            add("(list (%%fl %s%s) (inexact? '%s%s))" % (pre, t, pre, t), "(%s #t)" % show(f if x else 0.0), "prefixes")
        # flonums
        a = fl(rng, 0.03)
        A = lit(a)
        def ok(kind, text, a=a):
            if kind != "V" or not (text.startswith('("') and text.endswith('" #t #t #t #t)')):
                return "expected the printed flonum and #t #t #t #t"
            s = text[2:text.index('"', 2)]
            try:
                y = parse_float(s)
            except ValueError:
                return "printed form is not a number"
            if same_float(a, y):
                return None
            return "printed form denotes %r instead of %r" % (y, a)
        add("(let* ((x %s) (s (number->string x)) (p (open-output-string)) (e (lambda (a b) (eqv? (%%fl a) (%%fl b)))))"
            " (write x p) (list s (string=? s (get-output-string p)) (e x (string->number s)) (e x (read (open-input-string s)))"
            " (let ((d (open-output-string))) (display x d) (string=? s (get-output-string d)))))" % A
            if math.isfinite(a) and (a != math.floor(a) or "e" in repr(a) or True) and not (math.isfinite(a) and a == math.floor(a) and abs(a) < 1e21) else
            "(let* ((x %s) (s (number->string x)) (p (open-output-string)))"
            " (write x p) (list s (string=? s (get-output-string p)) (= (string->number s) x) (let ((y (read (open-input-string s)))) (= x y))"
            " (let ((d (open-output-string))) (display x d) (string=? s (get-output-string d)))))" % A,
            ok, "flonum round trip")
        # decimal literals
        s = decimal(rng)
        v = fl_of(s)
        add("(list (%%fl %s) (%%fl '%s) (%%fl (string->number %s)) (%%fl (string->number %s 10)) (%%fl (read (open-input-string %s))))" % (s, s, scm_string(s), scm_string(s), scm_string(s)), "(%s)" % " ".join([show(v)] * 5), "decimal")
        dx = Fraction(rng.randint(-10**6, 10**6), 1 << rng.randint(0, 12))
        ds = format(dx.numerator / dx.denominator, ".20f").rstrip("0")
        add("(list (eqv? #e%s %s) (exact? #E%s) (%%fl #i%s))" % (ds, ex(dx), ds, ds), "(#t #t %s)" % (show(float(dx)) if dx else show(float(ds))), "exact decimal")
        ez = rng.randint(0, 20)
        add("(list (eqv? #e%de%d %d) (eqv? (string->number \"%d\") %d))" % (i % 977, ez, (i % 977) * 10 ** ez if (i % 977) * 10**ez < 2**53 else int(float("%de%d" % (i % 977, ez))), i, i), "(#t #t)", "exact decimal")
        if i % 3 == 0:
            sp = rng.choice(("+inf.0", "-inf.0", "+nan.0", "-nan.0"))
            add("(list (%%fl %s) (%%fl (string->number \"%s\")) (number->string %s))" % (sp, sp, sp),
                lambda k, t, sp=sp: None if k == "V" and t.replace("-nan", "+nan") == '(%s %s "%s")' % (show(float(sp[:-2])), show(float(sp[:-2])), sp.replace("-nan", "+nan")) else "expected %s" % sp, "special")
            # rectangular complex numbers
            def part():
                k = rng.random()
                if k < 0.4:
                    v = rng.randint(-50, 50)
                    return str(v), v
                if k < 0.6:
                    v = ratio(rng)
                    return ex(v), v
                while True:
                    s = decimal(rng)
                    if math.isfinite(float(s)):
                        return s, float(s)
            (rs, rv), (is_, iv) = part(), part()
            if rng.random() < 0.2:
                rs, rv = "", 0
            if is_[0] not in "+-":
                is_ = "+" + is_
            if rng.random() < 0.2:
                is_ = rng.choice("+-")
                iv = int(is_ + "1")
            if abs(iv) > 1e-10:
                def w(v):
                    return show(v) if isinstance(v, float) else "(exact %s)" % ex(v)
                z = rs + is_ + "i"
                add("(let ((z '%s) (y (string->number \"%s\"))) (list (%%fl (real-part z)) (%%fl (imag-part z)) (%%fl (real-part y)) (%%fl (imag-part y)) (complex? z) (real? z)))" % (z, z), "(%s %s %s %s #t #f)" % (w(rv), w(iv), w(rv), w(iv)), "complex")
                if not isinstance(rv, float) and not isinstance(iv, float):
                    add("(let* ((z %s) (y (string->number (number->string z)))) (list (= z y) (= (real-part y) %s) (= (imag-part y) %s)))" % (z, ex(rv), ex(iv)), "(#t #t #t)", "complex round trip")
        # strings that are not numbers
        base = rng.choice((S, s, str(rng.randint(0, 999)), "1/2", "1.5e3", "+inf.0", "1+2i", "-i"))
        m = list(base)
        for _ in range(rng.randint(1, 2)):
            k = rng.random()
            j = rng.randrange(len(m) + 1)
            if k < 0.5:
                m.insert(j, rng.choice("+-./e#iz _x,;\"\\@$é1"))
            elif k < 0.75 and m:
                m.pop(min(j, len(m) - 1))
            elif m:
                m[min(j, len(m) - 1)] = rng.choice("+-./eaz \t\n")
        t = "".join(m)
        if (not NUMBER.fullmatch(t) or zero_den(t)) and not re.search(r"[0-9.][fFdD][+-]?[0-9]", t):
            add("(string->number %s)" % scm_string(t), "#f", "not a number")
            if re.fullmatch(r"[!$%&*/:<=>?^_~a-zA-Z][-+.@0-9a-zA-Z!$%&*/:<=>?^_~]*", t):
                add("(symbol? '%s)" % t, "#t", "not a number in text")
        bad = {2: "012", 8: "0178", 16: "0fg", 10: "09a"}[r]
        t = "".join(rng.choice(bad) for _ in range(rng.randint(1, 8)))
        try:
            v = int(t, r)
        except ValueError:
            v = None
        add("(string->number %s %d)" % (scm_string(t), r), "#f" if v is None else str(v), "digits of the radix")
    for t in ("", "+", "-", ".", "...", "+.", "-.", "1/0", "0/0", "1/", "/2", "1/2/3", "--1", "+-1", "1.2.3", "1e", "e5", "1e+", "1e5.5", "1/2e3", "1.5/2", "abc", "1 2", " 1", "1 ", "i", "1i", "2+3", "0x10", "1_000", "+inf", "inf.0", "nan.0", "-", "1-", "#t", "\\\\", "1\\u0000"):
        add("(string->number %s)" % scm_string(t.replace("\\u0000", "\0")), "#f", "not a number")
    return out


def run(ck):
    ck.run_known()
    ck.run_cases(cases(ck.rng, ck.n(1500, 20000)), batch=60)
