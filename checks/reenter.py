"""Mapping procedures whose procedure argument captures a continuation that is invoked after the map has returned:
"If multiple returns occur from map, the values returned by earlier returns are not mutated" (R7RS 6.10)."""
import random
from vlib import Case

DEFS = r"""
(define %k #f)
(define %n 0)
(define %results '())
(define (%again! limit) (set! %n (+ %n 1)) (if (< %n limit) (%k %n)))
"""


def cases(kind, n, seed):
    """kind: map, vector-map or string-map"""
    out = []
    for i in range(n):
        r = random.Random("%s/reenter/%s/%d" % (seed, kind, i))
        size = r.randint(1, 8)
        at = r.randrange(size)
        limit = r.randint(2, 4)
        two = r.random() < 0.4
        if kind == "string-map":
            xs = r.sample("abcdefghijklmnop", size)
            arg = '"%s"' % "".join(xs)
            val = lambda j: xs[j].upper()
            cap = "(char-upcase x)"
            new = lambda m: str(m)
            back = "(let ((v (call/cc (lambda (c) (if (not %%k) (set! %%k c)) %s)))) (if (char? v) v (string-ref (number->string v) 0)))" % cap
            test = "(char=? x #\\%s)" % xs[at]
            show = lambda items: '"%s"' % "".join(items)
        else:
            xs = r.sample(range(100), size)
            arg = "%s%s" % ("#(" if kind == "vector-map" else "'(", " ".join(map(str, xs)) + ")")
            val = lambda j: str(xs[j] * 10)
            cap = "(* x 10)"
            new = lambda m: str(m)
            back = "(call/cc (lambda (c) (if (not %%k) (set! %%k c)) %s))" % cap
            test = "(= x %d)" % xs[at]
            show = lambda items: ("#(%s)" if kind == "vector-map" else "(%s)") % " ".join(items)
        args = "%s %s" % (arg, arg) if two else arg
        expr = ("(begin (set! %%k #f) (set! %%n 0) (set! %%results '()) (let ((v (%s (lambda (x%s) (if %s %s %s)) %s))) (set! %%results (cons v %%results)) (%%again! %d) (reverse %%results)))"
                % (kind, " y" if two else "", test, back.replace("%%", "%"), cap, args, limit))
        rows = []
        for m in range(limit):
            items = [val(j) for j in range(size)]
            if m:
                items[at] = new(m)
            rows.append(show(items))
        out.append(Case(expr, "(%s)" % " ".join(rows), "results of re-entered " + kind, DEFS))
    return out
