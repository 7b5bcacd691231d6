"""Immediate values in every kind of slot (harness/nanbox.cpp, and Scheme programs)."""
from fractions import Fraction
import struct
from vlib import Case

TECHNIQUE = "monitored execution: every kind of immediate value stored in every kind of slot and read back, compared bit for bit by a C++ harness (also under AddressSanitizer and UndefinedBehaviorSanitizer) and by generated Scheme programs"
NOTE = ("The harness sweeps all characters in the thorough tier (every 16th quickly), all fixnums in the thorough tier (boundaries and random ones quickly), every exponent of flonums with characteristic and random fractions. "
        "NaN is compared as a class.")
RULE = "values of each kind crossed with slots (C++: fresh, copy, assignment over every other kind, car, cdr, list, vector; Scheme: 18 kinds of places) and with the type predicates; distinct by value and slot"
MIN = 100000

SLOTS = [
    "(let ((x %s)) x)",
    "(let ((x 0)) (set! x %s) x)",
    "(car (list %s 1))",
    "(let ((p (cons 1 2))) (set-car! p %s) (car p))",
    "(let ((p (cons 1 2))) (set-cdr! p %s) (cdr p))",
    "(vector-ref (vector 1 %s 2) 1)",
    "(let ((v (make-vector 5 'a))) (vector-set! v 3 %s) (vector-ref v 3))",
    "(vector-ref (make-vector 3 %s) 2)",
    "(let ((v (vector 1 2 3 4))) (vector-fill! v %s) (vector-ref v 3))",
    "(unbox (box %s))",
    "(let ((b (box 'x))) (set-box! b %s) (unbox b))",
    "(let () (define-record-type r (mk a b) r? (a ra) (b rb rb!)) (let ((o (mk %s 1))) (ra o)))",
    "(let () (define-record-type r (mk a b) r? (a ra) (b rb rb!)) (let ((o (mk 0 1))) (rb! o %s) (rb o)))",
    "(let ((x %s)) ((lambda () x)))",
    "(call/cc (lambda (k) (+ 1 (k %s))))",
    "(let ((p (make-parameter 0))) (parameterize ((p %s)) (p)))",
    "(force (delay %s))",
    "(call-with-values (lambda () (values 1 %s)) (lambda (a b) b))",
    "(guard (e (#t e)) (raise %s))",
    "(let loop ((n 5) (x %s) (y #f)) (if (= n 0) (if (odd? n) y x) (loop (- n 1) x (not x))))",
    "(cdr (assv 'k (list (cons 'j 1) (cons 'k %s))))",
    "(list-ref (append (list 1 2) (list %s)) 2)",
    "(apply (lambda (a . r) (car r)) 1 (list %s))",
]

DEFS = r"""
(define (%show x)
  (list (cond ((char? x) (list 'c (char->integer x)))
              ((and (number? x) (inexact? x)) (cond ((nan? x) 'nan) ((infinite? x) (list 'inf (< 0 x))) (else (list 'f (exact x) (if (zero? x) (< 0 (/ 1. x)) 'n)))))
              ((number? x) (list 'i x))
              (else x))
        (boolean? x) (null? x) (pair? x) (char? x) (number? x) (and (number? x) (exact? x)) (symbol? x) (string? x) (procedure? x) (vector? x)
        (eq? x #t) (eq? x #f) (eq? x '()) (if x 'true 'false)))
"""


def want(kind, v):
    b = lambda x: "#t" if x else "#f"
    if kind == "c":
        s = "(c %d)" % v
    elif kind == "f":
        if v != v:
            s = "nan"
        elif v in (float("inf"), float("-inf")):
            s = "(inf %s)" % b(v > 0)
        else:
            q = Fraction(v)
            s = "(f %s %s)" % (q if q.denominator != 1 else q.numerator, "n" if v else b(struct.pack("<d", v)[7] == 0))
    elif kind == "i":
        s = "(i %d)" % v
    elif kind == "b":
        s = b(v)
    else:
        s = "()"
    return "(%s %s %s #f %s %s %s #f #f #f #f %s %s %s %s)" % (
        s, b(kind == "b"), b(kind == "n"), b(kind == "c"), b(kind in "fi"), b(kind == "i"),
        b(kind == "b" and v), b(kind == "b" and not v), b(kind == "n"), "false" if kind == "b" and not v else "true")


def expr(kind, v):
    if kind == "c":
        return "(integer->char %d)" % v
    if kind == "f":
        if v != v:
            return "+nan.0"
        if v == float("inf"):
            return "+inf.0"
        if v == float("-inf"):
            return "-inf.0"
        if v == 0 and struct.pack("<d", v)[7]:
            return "-0.0"
        return repr(v)
    if kind == "i":
        return str(v)
    if kind == "b":
        return "#t" if v else "#f"
    return "'()"


def run(ck):
    r = ck.rng
    base = r.randrange(1 << 40)
    a = ck.run_tools("opt", "nanbox", [(base + i, ck.n(30000, 400000)) for i in range(ck.n(8, 16))], "sweep", timeout=800)
    b = ck.run_tools("san", "nanbox", [(base + 50 + i, ck.n(1500, 20000)) for i in range(ck.n(2, 8))], "sweep (sanitized)", timeout=800)
    if not ck.quick:
        c = ck.run_tools("opt", "nanbox", [(base, 1, "full")], "all fixnums and characters", timeout=3000)
        for k, v in c.items():
            a[k] = a.get(k, 0) + v
    tot = {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
    ck.evaluations += tot.get("slots", 0)
    ck.extra.update(tot)
    values = [("b", True), ("b", False), ("n", None)]
    values += [("i", s * (1 << k) + d) for k in (0, 1, 7, 15, 16, 23, 24, 30, 31, 32, 47, 48, 51, 52, 53, 62, 63, 64) for s in (1, -1) for d in (-1, 0, 1)]
    values += [("c", c) for c in (0, 1, 9, 10, 32, 65, 127, 128, 255, 256, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF)]
    values += [("f", x) for x in (0.0, -0.0, 1.0, -1.0, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, float("inf"), float("-inf"), float("nan"), 4503599627370496.0, 9007199254740993.0)]
    for _ in range(ck.n(60, 3000)):
        f = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        if f == f:
            values.append(("f", f))
        values.append(("i", r.randint(-2**31, 2**31 - 1)))
    cases = []
    for k, v in values:
        for s in SLOTS:
            cases.append(Case("(%%show %s)" % (s % expr(k, v)), want(k, v), {"b": "booleans", "n": "empty list", "i": "integers", "c": "characters", "f": "flonums"}[k], DEFS))
    ck.run_cases(cases, batch=250, timeout=30)
    ck.run_known()
