"""Macros against the hygienic expander of the reference interpreter."""
import random

import progcheck, syntaxgen
from vlib import Case

TECHNIQUE = "monitored execution of generated macro programs; differential oracle: an independent hygienic syntax-rules expander and interpreter; metamorphic: consistent renaming of local variables"
NOTE = "Held on the generated programs only. Local macros that expand into definitions of their own body are not generated. Trusts checks/refint.py."
RULE = ("random programs that define macros (let-syntax, letrec-syntax, internal and global define-syntax) and use them under bindings chosen to coincide with the names in their templates; "
        "random syntax-rules patterns (literals, ellipsis, tails, vectors, custom ellipsis) with quoted templates; judged by value; distinct by text")
MIN = 500


def run(ck):
    n = ck.n(8000, 250000)
    progcheck.run(ck, [
        ("hygiene", n // 2, dict(need=("macro expanded",), focus=dict(g_macro=4, g_macuse=6, g_let=1, g_app=1), size=(2, 3, 4))),
        ("hygiene, shadowed keywords", n // 4, dict(need=("macro expanded",), focus=dict(g_macro=4, g_macuse=6, g_let=1, g_app=1), size=(2, 3), shadow=0.25)),
    ])
    syntaxgen.run(ck, n // 2)
    ck.run_cases([forward(random.Random("%s/forward/%d" % (ck.seed, i))) for i in range(n // 10)])
    ck.run_known()


def forward(r):
    """Templates that refer to global variables defined only later: before or
    after the use is compiled, seen from a local binding of the same name."""
    val = r.randrange(100)
    shape = r.choice(["call", "ref", "operand", "set", "test", "nested"])
    tmpl, want = {
        "call": ("(fwd%proc x)", "(p %d)"), "ref": ("fwd%var", "{v}"), "operand": ("(list x fwd%var)", "(%d {v})"),
        "set": ("(begin (set! fwd%var x) fwd%var)", "%d"), "test": ("(if fwd%var x 'no)", "%d"),
        "nested": ("(let ((x2 x)) (list x2 (let () fwd%var)))", "(%d {v})"),
    }[shape]
    arg = r.randrange(100)
    want = want.replace("%d", str(arg)).replace("{v}", str(val))
    macro = "(define-syntax fwd%%mac (syntax-rules () ((_ x) %s)))" % tmpl
    later = ["(define fwd%%var %d)" % val, "(define (fwd%proc . a) (cons 'p a))"]
    r.shuffle(later)
    n = arg
    use = r.choice(["(fwd%%mac %d)", "(let ((fwd%%var 'wrong) (fwd%%proc vector)) (fwd%%mac %d))", "(let () (fwd%%mac %d))",
                    "(let* ((list vector)) (fwd%%mac %d))", "(call-with-values (lambda () 1) (lambda (k) (fwd%%mac %d)))",
                    "(let loop ((k 2)) (if (= k 0) (fwd%%mac %d) (loop (- k 1))))",
                    "(let-syntax ((other (syntax-rules () ((_) (fwd%%mac %d))))) (other))"]) % n
    fn = "(define (fwd%%use) %s)" % use
    order = r.choice([[macro, fn] + later, [macro] + later + [fn], later[:1] + [macro, fn] + later[1:], later + [macro, fn]])
    return Case("(fwd%use)", want, "forward reference", " ".join(order))
