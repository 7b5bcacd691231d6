"""Records, promises, multiple values and boxes against Python models."""
import random
from vlib import Case

TECHNIQUE = "monitored execution of generated programs with differential oracles (Python models of record types, of R7RS promises, of multiple values and of boxes); every forcing, access, modification and predicate is logged"
NOTE = ("Held on the generated programs only: up to 4 record types of up to 7 fields, graphs of up to 5 promises whose bodies are entered up to 3 times, up to 6 values. "
        "That vector? answers #t to records and pair? to promises is a known finding and kept out of the disjointness matrix. force of a non-promise and an uninitialized field are not specified.")
RULE = ("random record types (order of fields, subset of them in the constructor, generativity), promise graphs (delay, delay-force, make-promise, re-entrant and failing bodies, chains), producers and "
        "consumers of 0 to 6 values through continuations, handlers, winds, apply, and sequences of operations on boxes; distinct by text")
MIN = 1500

DEFS = r"""
(import (only (srfi 8) receive))
(define %log '())
(define (%note . xs) (set! %log (cons xs %log)))
(define (%done) (let ((r (reverse %log))) (set! %log '()) r))
(define-syntax %catch (syntax-rules () ((_ e) (call/cc (lambda (k) (with-exception-handler (lambda (x) (k (if (error-object? x) 'error (list 'raised x)))) (lambda () e)))))))
(define (%index x l) (let loop ((l l) (i 0)) (cond ((null? l) #f) ((eq? (car l) x) i) (else (loop (cdr l) (+ i 1))))))
"""

# -- records ------------------------------------------------------------------

ATOMS = ["0", "1", "-7", "'a", "'b", '"s"', "#t", "#f", "'()", "'(1 2)", "#\\x", "123456789012345678901234567890", "1/2"]
SHOWN = {"'a": "a", "'b": "b", '"s"': '"s"', "'()": "()", "'(1 2)": "(1 2)", "#\\x": "#\\x"}

OTHERS = ["1", "'a", "\"s\"", "#t", "'()", "(list 1 2)", "(lambda (x) x)", "car", "(vector 1 2)", "(vector)", "(bytevector 1)", "(box 1)", "(delay 1)", "(make-parameter 1)", "(eof-object)",
          "(call/cc (lambda (k) k))", "(current-output-port)", "(cons 1 2)", "(if #f #f)"]


class Inst:
    def __init__(self, t, vals):
        self.t, self.vals = t, vals


def records(r):
    """One program about several record types and their instances."""
    types, defs = [], []
    nt = r.randint(1, 4)
    for t in range(nt):
        n = r.choice([0, 1, 2, 3, 3, 4, 5, 7])
        names = ["f%d" % i for i in range(n)] if r.random() < 0.5 else r.sample(["a", "b", "c", "x", "y", "z", "name", "value", "list", "car"], n)
        ctor = names[:]
        if r.random() < 0.6:
            r.shuffle(ctor)
        if r.random() < 0.4 and ctor:
            ctor = ctor[:r.randint(0, len(ctor))]
        mut = [r.random() < 0.6 for _ in names]
        order = list(range(n))
        tname = r.choice(["t%d" % t, "<t%d>" % t, "point", "<r>"])
        if any(x[0] == tname for x in types):
            tname = "tt%d" % t
        d = "(define-record-type %s (mk%d%s) t%d?%s)" % (tname, t, "".join(" " + c for c in ctor), t, "".join(
            " (%s t%d-%s%s)" % (names[i], t, names[i], " t%d-%s!" % (t, names[i]) if mut[i] else "") for i in order))
        defs.append(d)
        types.append((tname, names, ctor, mut))
    insts, log, body = [], [], []

    def val():
        if insts and r.random() < 0.3:
            i = r.randrange(len(insts))
            return ("i", i), "r%d" % i
        a = r.choice(ATOMS)
        return ("a", SHOWN.get(a, a)), a

    def show(v):
        return v[1] if v[0] == "a" else "(i %d)" % v[1]

    for _ in range(r.randint(4, 14)):
        x = r.random()
        if not insts or x < 0.22:
            t = r.randrange(nt)
            vs = [val() for _ in types[t][2]]
            body.append("(define r%d (mk%d%s))" % (len(insts), t, "".join(" " + v[1] for v in vs)))
            insts.append(Inst(t, dict(zip(types[t][2], [v[0] for v in vs]))))
            body.append("(define %%all%d (list %s))" % (len(insts), " ".join("r%d" % i for i in range(len(insts)))))
            continue
        i = r.randrange(len(insts))
        I = insts[i]
        tn, names, ctor, mut = types[I.t]
        show_e = "(%%show %s %%all" + str(len(insts)) + ")"
        via = r.choice(["r%d", "(car (list r%d))", "(vector-ref (vector 1 r%d) 1)", "(unbox (box r%d))", "(let ((q r%d)) q)"]) % i
        if x < 0.45:
            known = [f for f in names if f in I.vals]
            if known:
                f = r.choice(known)
                body.append("(define d%d (%%note %s))" % (len(body), show_e % ("(t%d-%s %s)" % (I.t, f, via))))
                log.append("(%s)" % show(I.vals[f]))
        elif x < 0.65:
            ms = [f for f, m in zip(names, mut) if m]
            if ms:
                f = r.choice(ms)
                v, e = val()
                body.append("(define d%d (t%d-%s! %s %s))" % (len(body), I.t, f, via, e))
                I.vals[f] = v
        elif x < 0.78:
            body.append("(define d%d (%%note %s))" % (len(body), " ".join("(t%d? %s)" % (t, via) for t in range(nt))))
            log.append("(%s)" % " ".join("#t" if t == I.t else "#f" for t in range(nt)))
        elif x < 0.85:
            t = r.randrange(nt)
            body.append("(define d%d (%%note (t%d? %s)))" % (len(body), t, r.choice(OTHERS)))
            log.append("(#f)")
        elif x < 0.94:
            t = r.randrange(nt)
            if types[t][1]:
                f = r.randrange(len(types[t][1]))
                n = types[t][1][f]
                objs = ["r%d" % j for j in range(len(insts)) if insts[j].t != t] + r.sample(OTHERS, 2)
                o = r.choice(objs)
                e = "(t%d-%s! %s 1)" % (t, n, o) if types[t][3][f] and r.random() < 0.5 else "(t%d-%s %s)" % (t, n, o)
                body.append("(define d%d (%%note (%%catch %s)))" % (len(body), e))
                log.append("(error)")
        elif x < 0.97:
            t = r.randrange(nt)
            k = len(types[t][2]) + r.choice([1, 2, -1])
            if k >= 0:
                body.append("(define d%d (%%note (%%catch (mk%d%s))))" % (len(body), t, " 1" * k))
                log.append("(error)")
        else:
            j = r.randrange(len(insts))
            body.append("(define d%d (%%note (eq? %s r%d)))" % (len(body), via, j))
            log.append("(#%s)" % ("t" if i == j else "f"))
    # the final contents of every instance
    for j, I in enumerate(insts):
        fs = [f for f in types[I.t][1] if f in I.vals]
        if fs:
            body.append("(define e%d (%%note %s))" % (j, " ".join("(%%show (t%d-%s r%d) %%all%d)" % (I.t, f, j, len(insts)) for f in fs)))
            log.append("(%s)" % " ".join(show(I.vals[f]) for f in fs))
    sh = "(define (%show x l) (let ((i (%index x l))) (if i (list 'i i) x)))"
    return "(let () %s %s %s (%%done))" % (" ".join(defs), sh, " ".join(body)), "(%s)" % " ".join(log)


def generative(r):
    """The same definition evaluated several times makes distinct types."""
    n = r.randint(2, 4)
    fs = r.randint(1, 3)
    f = ["f%d" % i for i in range(fs)]
    d = "(define (mk) (define-record-type t (make %s) t? %s) (list make t? %s))" % (" ".join(f), " ".join("(%s t-%s)" % (x, x) for x in f), " ".join("t-" + x for x in f))
    args = " ".join(str(i) for i in range(fs))
    parts, want = [], []
    for i in range(n):
        for j in range(n):
            parts.append("((cadr k%d) o%d)" % (i, j))
            want.append("#t" if i == j else "#f")
            a = r.randrange(fs)
            parts.append("(%%catch ((list-ref k%d %d) o%d))" % (i, 2 + a, j))
            want.append(str(a) if i == j else "error")
    return "(let () %s %s %s (list %s))" % (d, " ".join("(define k%d (mk))" % i for i in range(n)), " ".join("(define o%d ((car k%d) %s))" % (i, i, args) for i in range(n)), " ".join(parts)), "(%s)" % " ".join(want)


# -- promises -------------------------------------------------------------------

class P:
    """R7RS promise: a shared content cell (done, value or thunk)."""
    def __init__(self, done, value):
        self.cell = [done, value]


class Exn(Exception):
    pass


class Escape(Exception):
    pass


def promises(r):
    n = r.randint(1, 5)
    kinds = [r.choice(["delay", "delay", "force", "force", "make"]) for _ in range(n)]
    if "delay" not in kinds and "force" not in kinds:
        kinds[0] = "delay"
    plans, defs = [], []
    for i in range(n):
        if kinds[i] == "make":
            c = r.randint(0, 99)
            plans.append(c)
            defs.append("(define p%d (make-promise %d))" % (i, c))
            continue
        acts = []
        for k in range(2):
            x = r.random()
            j = r.randrange(n)
            if kinds[i] == "delay":
                acts.append(("const", r.randint(0, 99)) if x < 0.35 else ("force", j, r.randint(1, 9)) if x < 0.75 else ("raise", r.randint(100, 199)) if x < 0.88 else ("escape", r.randint(200, 299)))
            else:
                acts.append(("ref", j) if x < 0.5 else ("newdelay", r.randint(0, 99)) if x < 0.62 else ("make", r.randint(0, 99)) if x < 0.7 else ("nested", j) if x < 0.8
                            else ("forceref", r.randrange(n), j) if x < 0.9 else ("raise", r.randint(100, 199)) if x < 0.95 else ("escape", r.randint(200, 299)))
        acts.append(("const", r.randint(0, 99)) if kinds[i] == "delay" else ("make", r.randint(0, 99)))
        plans.append(acts)

        def text(a):
            if a[0] == "const":
                return str(a[1])
            if a[0] == "make":
                return "(make-promise %d)" % a[1]
            if a[0] == "force":
                return "(let ((v (force p%d))) (%%note 'got %d v) (if (number? v) (+ v %d) 'odd))" % (a[1], i, a[2])
            if a[0] == "raise":
                return "(raise %d)" % a[1]
            if a[0] == "escape":
                return "(%%k %d)" % a[1]
            if a[0] == "ref":
                return "p%d" % a[1]
            if a[0] == "newdelay":
                return "(delay (begin (%%note 'inner %d) %d))" % (i, a[1])
            if a[0] == "nested":
                return "(delay-force (begin (%%note 'nested %d) p%d))" % (i, a[1])
            if a[0] == "forceref":
                return "(let ((v (force p%d))) (%%note 'got %d v) p%d)" % (a[1], i, a[2])
        defs.append("(define c%d 0)" % i)
        defs.append("(define p%d (%s (begin (set! c%d (+ c%d 1)) (%%note 'in %d c%d) (case c%d ((1) %s) ((2) %s) (else %s)))))" % (
            i, "delay" if kinds[i] == "delay" else "delay-force", i, i, i, i, i, text(acts[0]), text(acts[1]), text(acts[2])))
    # the model
    log, cnt, steps = [], [0] * n, [0]
    ps = []

    def force(p):
        while True:
            steps[0] += 1
            if steps[0] > 400:
                raise RecursionError
            if p.cell[0]:
                return p.cell[1]
            q = p.cell[1]()
            if not p.cell[0]:
                p.cell[0], p.cell[1] = q.cell[0], q.cell[1]
                q.cell = p.cell

    def body(i):
        def run():
            cnt[i] += 1
            log.append("(in %d %d)" % (i, cnt[i]))
            a = plans[i][min(cnt[i], 3) - 1]
            if a[0] == "const":
                return P(True, a[1])
            if a[0] == "make":
                return P(True, a[1])
            if a[0] == "force":
                v = force(ps[a[1]])
                log.append("(got %d %s)" % (i, v))
                return P(True, v + a[2] if isinstance(v, int) else "odd")
            if a[0] == "raise":
                raise Exn(a[1])
            if a[0] == "escape":
                raise Escape(a[1])
            if a[0] == "ref":
                return ps[a[1]]
            if a[0] == "newdelay":
                return P(False, lambda: (log.append("(inner %d)" % i), P(True, a[1]))[1])
            if a[0] == "nested":
                return P(False, lambda: (log.append("(nested %d)" % i), ps[a[1]])[1])
            if a[0] == "forceref":
                v = force(ps[a[1]])
                log.append("(got %d %s)" % (i, v))
                return ps[a[2]]
        return run

    for i in range(n):
        ps.append(P(True, plans[i]) if kinds[i] == "make" else P(False, body(i)))
    top = []
    for _ in range(r.randint(2, 2 * n + 2)):
        i = r.randrange(n)
        top.append("(let ((v (call/cc (lambda (k) (set! %%k k) (with-exception-handler (lambda (x) (k (list 'raised x))) (lambda () (force p%d))))))) (%%note 'top %d v))" % (i, i))
        try:
            v = str(force(ps[i]))
        except Exn as e:
            v = "(raised %s)" % e.args[0]
        except Escape as e:
            v = str(e.args[0])
        log.append("(top %d %s)" % (i, v))
        if r.random() < 0.3:
            top.append("(%%note %s)" % " ".join("(promise? p%d)" % k for k in range(n)))
            log.append("(%s)" % " ".join(["#t"] * n))
    return "(let () (define %%k #f) %s %s (%%done))" % (" ".join(defs), " ".join(top)), "(%s)" % " ".join(log)


def chains(r, big):
    n = big if r.random() < 0.4 else r.randint(1, 300)
    x = r.random()
    v = r.randint(0, 999)
    if x < 0.2:
        return "(force (let loop ((n %d)) (if (= n 0) (delay %d) (delay-force (loop (- n 1))))))" % (n, v), str(v)
    if x < 0.4:
        return "(let loop ((n %d) (p (delay %d))) (if (= n 0) (list (force p) (force p)) (loop (- n 1) (delay-force p))))" % (n, v), "(%d %d)" % (v, v)
    if x < 0.6:
        k = r.randint(1, 50)
        return ("(let () (define c 0) (define (ints n) (delay (begin (set! c (+ c 1)) (cons n (ints (+ n 1)))))) (define (nth s k) (if (= k 0) (car (force s)) (nth (cdr (force s)) (- k 1)))) "
                "(define s (ints %d)) (let* ((a (nth s %d)) (b (nth s %d))) (list a b c)))" % (v, k, k // 2)), "(%d %d %d)" % (v + k, v + k // 2, k + 1)
    if x < 0.8:
        m = r.randint(2, 9)
        k = r.randint(1, 20)
        return ("(let () (define-syntax scons (syntax-rules () ((_ a b) (delay (cons a b))))) (define (from n) (scons n (from (+ n 1)))) "
                "(define (sfilter p s) (delay-force (let ((x (force s))) (if (p (car x)) (delay (cons (car x) (sfilter p (cdr x)))) (sfilter p (cdr x)))))) "
                "(define (nth s k) (if (= k 0) (car (force s)) (nth (cdr (force s)) (- k 1)))) (nth (sfilter (lambda (x) (zero? (modulo x %d))) (from 0)) %d))" % (m * 20, k)), str(m * 20 * k)
    return ("(let () (define c 0) (define s (let loop ((n %d) (p (delay (begin (set! c (+ c 1)) %d)))) (if (= n 0) p (loop (- n 1) (delay-force p))))) (let* ((a (force s)) (b (force s))) (list a b c)))" % (n, v)), "(%d %d 1)" % (v, v)


# -- multiple values --------------------------------------------------------------

class V:
    def __init__(self, r):
        self.r, self.k = r, 0

    def fresh(self, p="v"):
        self.k += 1
        return "%s%d" % (p, self.k)

    def prod(self, d, n=None):
        """(expression, list of values)"""
        r = self.r
        if n is None:
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 6])
        if d <= 0 or r.random() < 0.15:
            vs = [r.randint(0, 99) for _ in range(n)]
            t = " ".join(map(str, vs))
            w = r.randrange(5)
            if w == 0 or n == 1 and w == 4:
                return ("(values %s)" % t if n else "(values)"), vs
            if w == 1:
                return "(apply values (list %s))" % t, vs
            if w == 2:
                return "(call/cc (lambda (k) (k %s)))" % t, vs
            if w == 3:
                return "(call/cc (lambda (k) (+ 1 (k %s))))" % t, vs
            return "(apply values %s '(%s))" % (" ".join(t.split()[:n // 2]), " ".join(t.split()[n // 2:])), vs
        w = r.randrange(24)
        e, vs = self.prod(d - 1, n)
        if w == 0:
            return "(dynamic-wind (lambda () (%%note 'in)) (lambda () %s) (lambda () (values 7 8 9)))" % e, vs
        if w == 1:
            return "(if %s %s (values 'no 'no))" % (r.choice(["#t", "0", "(= 1 1)"]), e), vs
        if w == 2:
            return "(let ((x 1)) %s)" % e, vs
        if w == 3:
            return "(begin (values 1 2) %s)" % e, vs
        if w == 4:
            return "(guard (e (#f 1)) %s)" % e, vs
        if w == 5:
            return "(guard (e ((eqv? e 5) %s)) (raise 5))" % e, vs
        if w == 6:
            return "(with-exception-handler (lambda (x) %s) (lambda () (raise-continuable 1)))" % e, vs
        if w == 7:
            return "(with-exception-handler (lambda (x) 0) (lambda () %s))" % e, vs
        if w == 8:
            return "(call-with-values (lambda () %s) values)" % e, vs
        if w == 9:
            return "(call-with-values (lambda () %s) (lambda l (apply values (reverse l))))" % e, vs[::-1]
        if w == 10:
            return "(case 3 ((1) 0) ((2 3) %s) (else 0))" % e, vs
        if w == 11:
            return "((lambda (f) (f)) (lambda () %s))" % e, vs
        if w == 12:
            return "(cond (#f 0) (1 => (lambda (x) %s)) (else 0))" % e, vs
        if w == 13:
            return "(let loop ((i 3)) (if (= i 0) %s (loop (- i 1))))" % e, vs
        if w == 14:
            return "(call/cc (lambda (k) (dynamic-wind (lambda () (%%note 'in)) (lambda () (call-with-values (lambda () %s) k)) (lambda () (%%note 'out)))))" % e, vs
        if w == 15:
            return "(call/cc (lambda (k) (with-exception-handler (lambda (x) (apply k x)) (lambda () (call-with-values (lambda () %s) (lambda l (raise l)))))))" % e, vs
        if w == 16:
            return "(and 1 %s)" % e, vs
        if w == 17:
            return "(or #f %s)" % e, vs
        if w == 18:
            return "(when #t 1 %s)" % e, vs
        if w == 19:
            return "(unless #f 1 %s)" % e, vs
        if w == 20:
            p = self.fresh("p")
            return "(let ((%s (make-parameter 1))) (parameterize ((%s 2)) %s))" % (p, p, e), vs
        if w == 21:
            return "(do ((i 0 (+ i 1))) ((= i 2) %s))" % e, vs
        if w == 22:
            f, l, xs, rest = self.formals(vs)
            return "(call-with-values (lambda () %s) (lambda %s (apply values %s)))" % (e, f, l), vs
        return "((case-lambda ((a) 0) ((a b) %s) (l 0)) 1 2)" % e, vs

    def producer(self, d, n=None):
        return self.prod(d, n)

    def formals(self, vs):
        """A lambda list that accepts the values, and the expression that lists them."""
        r = self.r
        n = len(vs)
        req = r.randint(0, n)
        xs = [self.fresh("x") for _ in range(req)]
        if req == n and r.random() < 0.6:
            return ("(%s)" % " ".join(xs)), "(list %s)" % " ".join(xs), xs, None
        rest = self.fresh("r")
        fs = "(%s . %s)" % (" ".join(xs), rest) if xs else rest
        return fs, "(cons* %s %s)" % (" ".join(xs), rest) if xs else rest, xs, rest

    def cons(self, d, e, vs):
        r = self.r
        f, l, xs, rest = self.formals(vs)
        want = "(%s)" % " ".join(map(str, vs))
        w = r.randrange(7)
        if w == 0:
            return "(call-with-values (lambda () %s) list)" % e, want
        if w == 1:
            return "(call-with-values (lambda () %s) (lambda %s %s))" % (e, f, l), want
        if w == 2:
            return "(receive %s %s %s)" % (f, e, l), want
        if w == 3:
            return "(let-values ((%s %s)) %s)" % (f, e, l), want
        if w == 4:
            return "(let*-values ((%s %s)) %s)" % (f, e, l), want
        if w == 5:
            return "(let () (define-values %s %s) %s)" % (f, e, l), want
        n = len(vs)
        return "(call-with-values (lambda () %s) (case-lambda %s (else 'wrong)))" % (e, " ".join(
            "((%s) (list %s))" % (" ".join("a%d" % j for j in range(i)), " ".join("a%d" % j for j in range(i))) for i in range(n + 1))), want

    def program(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            e, vs = self.producer(r.randint(1, 4))
            c, want = self.cons(2, e, vs)
            return "(let ((l %s)) (set! %%log '()) l)" % c, want
        # several bindings at once
        bs, ls, ws = [], [], []
        for _ in range(r.randint(1, 4)):
            e, vs = self.producer(r.randint(0, 2))
            f, l, xs, rest = self.formals(vs)
            bs.append("(%s %s)" % (f, e))
            ls.append(l)
            ws.append("(%s)" % " ".join(map(str, vs)))
        want = "(%s)" % " ".join(ws)
        if x < 0.65:
            return "(let-values (%s) (list %s))" % (" ".join(bs), " ".join(ls)), want
        if x < 0.8:
            return "(let*-values (%s) (list %s))" % (" ".join(bs), " ".join(ls)), want
        return "(let () %s (list %s))" % (" ".join("(define-values " + b[1:] for b in bs), " ".join(ls)), want


def scopes(r):
    """let-values takes its expressions outside, let*-values sees the previous bindings, define-values is a definition."""
    a, b, c = (r.randint(0, 99) for _ in range(3))
    k = r.randrange(4)
    if k == 0:
        return "(let ((a %d) (b %d)) (let-values (((a c) (values b a)) ((b . d) (values a b %d))) (list a b c d)))" % (a, b, c), "(%d %d %d (%d %d))" % (b, a, a, b, c)
    if k == 1:
        return "(let ((a %d) (b %d)) (let*-values (((a c) (values b a)) ((b . d) (values a c %d))) (list a b c d)))" % (a, b, c), "(%d %d %d (%d %d))" % (b, b, a, a, c)
    if k == 2:
        return "(let () (define-values (x y) (values %d (lambda () x))) (define-values (f . z) (values (lambda () (+ (y) (car z))) %d %d)) (set! x %d) (list x (y) (f) z))" % (a, b, c, c), "(%d %d %d (%d %d))" % (c, c, c + b, b, c)
    return "(let ((x %d)) (define-values (e? o?) (values (lambda (n) (if (= n 0) #t (o? (- n 1)))) (lambda (n) (if (= n 0) #f (e? (- n 1)))))) (list x (e? %d) (o? %d)))" % (a, b, b), "(%d #%s #%s)" % (
        a, "t" if b % 2 == 0 else "f", "f" if b % 2 == 0 else "t")


# -- boxes ---------------------------------------------------------------------------

def boxes(r):
    n = r.randint(1, 4)
    init = [r.randint(0, 99) for _ in range(n)]
    vals = [("a", v) for v in init]
    names = list(range(n))            # variable -> box
    body, log = ["(define b%d (box %d))" % (i, v) for i, v in enumerate(init)], []

    def show(v, depth=0):
        return str(v[1]) if v[0] == "a" else "(b %d)" % v[1]

    for _ in range(r.randint(3, 12)):
        x = r.random()
        i = r.randrange(len(names))
        if x < 0.35:
            if r.random() < 0.3:
                j = r.randrange(len(names))
                body.append("(define d%d (set-box! b%d b%d))" % (len(body), i, j))
                vals[names[i]] = ("b", names[j])
            else:
                v = r.randint(100, 999)
                body.append("(define d%d (set-box! b%d %d))" % (len(body), i, v))
                vals[names[i]] = ("a", v)
        elif x < 0.5:
            body.append("(define b%d b%d)" % (len(names), i))
            names.append(names[i])
        elif x < 0.85:
            body.append("(define d%d (%%note (%%show (unbox b%d))))" % (len(body), i))
            log.append("(%s)" % show(vals[names[i]]))
        elif x < 0.93:
            j = r.randrange(len(names))
            body.append("(define d%d (%%note (eq? b%d b%d) (box? b%d)))" % (len(body), i, j, i))
            log.append("(#%s #t)" % ("t" if names[i] == names[j] else "f"))
        else:
            body.append("(define d%d (%%note (box? %s)))" % (len(body), r.choice([o for o in OTHERS if "box" not in o])))
            log.append("(#f)")
    first = [names.index(b) for b in range(n)]
    sh = "(define (%%show x) (let ((i (%%index x (list %s)))) (if i (list 'b i) x)))" % " ".join("b%d" % f for f in range(n))
    return "(let () %s %s (%%done))" % (" ".join(body[:n]) + " " + sh, " ".join(body[n:])), "(%s)" % " ".join(log)


# -- disjointness -----------------------------------------------------------------------

def matrix():
    objs = {"boolean?": ["#t", "#f"], "char?": ["#\\a", "#\\x0", "#\\x10FFFF"], "null?": ["'()"], "pair?": ["(cons 1 2)", "'(1)", "(list 1 2)"],
            "procedure?": ["car", "(lambda () 1)", "(call/cc (lambda (k) k))", "(make-parameter 1)", "(case-lambda ((a) a))"],
            "string?": ['""', '"a"', "(make-string 2 #\\a)"], "symbol?": ["'a", "'||", "(string->symbol \"A b\")"], "vector?": ["#()", "(vector 1 2)", "(make-vector 3 0)"],
            "bytevector?": ["#u8()", "(bytevector 1 2)"], "number?": ["0", "-1", "1/2", "1.5", "100000000000000000000", "(make-rectangular 1 2)", "+inf.0"],
            "eof-object?": ["(eof-object)"], "promise?": ["(delay 1)", "(make-promise 1)", "(delay-force (delay 1))", "(let ((p (delay 2))) (force p) p)"], "box?": ["(box 1)"],
            "port?": ["(open-input-string \"\")", "(open-output-string)", "(open-input-bytevector #u8(1))", "(current-error-port)"],
            "r1?": ["(mk1 1 2)"], "r2?": ["(mk2)", "(mk2)"], "error-object?": ["(guard (e (#t e)) (error \"x\" 1))", "(guard (e (#t e)) (string-ref \"\" 1))"]}
    d = DEFS + "(define-record-type <one> (mk1 a b) r1? (a one-a) (b one-b one-b!))\n(define-record-type two (mk2) r2?)\n"
    out = []
    for p, os in objs.items():
        for o in os:
            for q in objs:
                if q == "vector?" and p in ("r1?", "r2?") or q == "pair?" and p == "promise?":
                    continue      # known finding
                out.append(Case("(let ((x %s)) (%s x))" % (o, q), "#t" if p == q else "#f", "disjointness matrix", d))
    return out


def run(ck):
    r = ck.rng
    cases = matrix()
    for f, tag, q, t in ((records, "records", 900, 20000), (generative, "generative record types", 40, 400), (promises, "promise graphs", 1500, 40000),
                         (lambda r: V(r).program(), "multiple values", 1500, 40000), (scopes, "scopes of let-values", 60, 600), (boxes, "boxes", 300, 6000),
                         (lambda r: chains(r, ck.n(20000, 200000)), "chains and streams", 60, 600)):
        for _ in range(ck.n(q, t)):
            try:
                e, w = f(r)
            except RecursionError:
                continue
            cases.append(Case(e, w, tag, DEFS))
    ck.run_cases(cases, batch=30, timeout=30)
    ck.run_known()
