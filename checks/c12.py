"""Tail calls leave nothing behind; deep recursion and long lists are only a matter of memory."""
from vlib import Case

TECHNIQUE = "runtime monitoring of the heap: random compositions of tail positions are iterated and the number of live objects after a forced collection is compared between an early and a late iteration; deep recursion and long lists are run to completion under the ordinary C stack"
NOTE = ("A frame left behind is seen if it is left in every iteration (or every few). Recursion depth up to 300000 and lists of up to 300000 elements. Data nested deeply in cars (not lists) is out of scope for equal?, write and read; eval is not among the forms.")
RULE = ("loops of one to four mutually recursive procedures whose recursive call stands inside of up to six nested tail positions; loops through continuations; loops whose body performs non-local exits; deep "
        "non-tail recursion through random non-tail positions; library procedures on long lists; distinct by program")
MIN = 400

DEFS = r"""
(import (srfi 8))
(define %base #f)
(define %last #f)
(define (%probe i a b)
  (cond ((= i a) (%gc) (set! %base (%live)))
        ((= i b) (%gc) (set! %last (%live)))
        (else i)))
(define (%grown) (- %last %base))
(define-syntax my-tail (syntax-rules () ((_ e) e) ((_ x e ...) (begin x (my-tail e ...)))))
(define-syntax my-if (syntax-rules () ((_ c a b) (cond (c a) (else b)))))
(define-syntax while2 (syntax-rules () ((_ e) (let w ((n 0)) (if (< n 1) (w (+ n 1)) e)))))
(define tailcase (case-lambda ((f) (f)) ((f a) (f)) ((f a . r) (f))))
(define (call-it f . r) (f))
(define sink 0)
"""


def tail(r, e, d, v):
    """The call e inside of d nested tail positions; v is the loop variable."""
    if d == 0:
        return e
    e = tail(r, e, d - 1, v)
    forms = [
        "(if (< %(v)s 0) 'no %(e)s)", "(if (>= %(v)s 0) %(e)s 'no)", "(if (>= %(v)s 0) %(e)s)",
        "(cond ((< %(v)s 0) 'no) ((>= %(v)s 0) 'x %(e)s) (else 'no))", "(cond ((< %(v)s 0) 'no) (else 'x %(e)s))", "(cond ((+ %(v)s 0) => (lambda (t) %(e)s)) (else 0))",
        "(case (modulo %(v)s 3) ((0 1) 'x %(e)s) (else %(e)s))", "(case %(v)s ((-1) 'no) (else 1 %(e)s))", "(case (modulo %(v)s 2) ((0) => (lambda (t) %(e)s)) (else => (lambda (t) %(e)s)))", "(case 'b ((a) 1) ((b c) %(e)s))",
        "(and #t %(v)s %(e)s)", "(and %(e)s)", "(or #f (< %(v)s 0) %(e)s)", "(or %(e)s)", "(when (>= %(v)s 0) 'x %(e)s)", "(unless (< %(v)s 0) 'x %(e)s)",
        "(let ((t %(v)s) (u 1)) %(e)s)", "(let () %(e)s)", "(let* ((t %(v)s) (u t)) 'x %(e)s)", "(let* () %(e)s)", "(letrec ((t (lambda () u)) (u 1)) %(e)s)", "(letrec* ((t 1) (u (lambda () t))) 'x %(e)s)",
        "(let nl ((t 0)) (if (< t 2) (nl (+ t 1)) %(e)s))", "(let-values (((t u) (values 1 2)) ((w) (values 3))) %(e)s)", "(let*-values (((t u) (values 1 2)) (w (values t))) %(e)s)", "(receive (t . u) (values 1 2) %(e)s)",
        "(do ((t 0 (+ t 1))) ((= t 2) 'x %(e)s) t)", "(do ((t 0 (+ t 1))) ((= t 2) %(e)s))", "(begin 'x %(e)s)", "(begin (set! sink %(v)s) %(v)s %(e)s)", "(begin %(e)s)",
        "((lambda (t) %(e)s) %(v)s)", "((lambda t 'x %(e)s) %(v)s 2)", "((lambda (t . u) %(e)s) %(v)s 2)", "((lambda () (define t 1) (define (u) t) %(e)s))", "(let () (define-values (t u) (values 1 2)) %(e)s)",
        "(let () (define-record-type point (mk x) point? (x px)) %(e)s)",
        "(apply (lambda (t) %(e)s) (list %(v)s))", "(apply (lambda (t . u) %(e)s) %(v)s '(1 2))", "(call/cc (lambda (t) %(e)s))", "(call-with-current-continuation (lambda (t) 'x %(e)s))",
        "(call-with-values (lambda () (values %(v)s 2)) (lambda (t u) %(e)s))", "(call-with-values (lambda () 1) (lambda (t) %(e)s))",
        "(my-tail 1 2 %(e)s)", "(my-if (< %(v)s 0) 'no %(e)s)", "(while2 %(e)s)", "(tailcase (lambda () %(e)s))", "(tailcase (lambda () %(e)s) 1)", "(tailcase (lambda () %(e)s) 1 2)", "(call-it (lambda () %(e)s) 1 2)",
        "((case-lambda ((t) %(e)s) ((t u) 'no)) %(v)s)", "((case-lambda ((t) 'no) (t %(e)s)) %(v)s 2)", "(let-syntax ((q (syntax-rules () ((_ y) y)))) %(e)s)", "(letrec-syntax ((q (syntax-rules () ((_ y) y)))) (q %(e)s))",
        "(let loop3 ((t '(1 2))) (cond ((null? t) %(e)s) (else (loop3 (cdr t)))))", "(let ((t (lambda () %(e)s))) (t))", "(letrec ((t (lambda (n) (if (= n 0) %(e)s (t (- n 1)))))) (t 2))",
        "(if (not (>= %(v)s 0)) 'no (let ((t (vector 1 2))) %(e)s))",
    ]
    return r.choice(forms) % {"e": e, "v": v}


NONTAIL = ["(+ 1 %s)", "(let ((t %s)) (+ 1 t))", "(car (list (+ 1 %s)))", "(begin (set! sink %s) (+ sink 1))", "(apply + 1 (list %s))", "(call-with-values (lambda () %s) (lambda (t) (+ t 1)))", "(if (number? %s) (begin (set! sink (+ sink 1)) sink) 0)",
           "(cond ((+ %s 1) => (lambda (t) t)) (else 0))", "(+ (call/cc (lambda (k) %s)) 1)", "(let* ((a 1) (t %s)) (+ a t))", "(cadr (map (lambda (y) (if (= y 1) 0 (+ 1 %s))) '(1 2)))", "(vector-ref (vector 0 (+ 1 %s)) 1)", "(letrec ((t (+ 1 %s))) t)"]


def run(ck):
    r = ck.rng
    cases = []
    GROWN = "(let ((g (%grown))) (if (< g 300) 'bounded g))"

    def add(e, tag, want="(done bounded)"):
        cases.append(Case(e, want, tag, DEFS))

    def loop():
        n = r.choice([1, 1, 1, 2, 3, 4])
        iters = r.choice([1500, 2500])
        names = ["f%d" % i for i in range(n)]
        style = r.randint(0, 3)
        shapes = []
        for i in range(n):
            s = r.randint(0, 3)
            shapes.append(["(i)", "(i . r)", "i0", "(i x)"][s])
        defs = []
        for i, name in enumerate(names):
            to = r.randrange(n) if r.random() < 0.5 else (i + 1) % n
            call = lambda: callto(names[to], shapes[to])
            body = tail(r, call(), r.randint(0, 6), "i")
            if shapes[i] == "i0":
                body = "(let ((i (car i0))) (%%probe i 300 %d) (if (< i %d) %s 'done))" % (iters, iters + 50, body)
            else:
                body = "(%%probe i 300 %d) %s" % (iters, r.choice(["(if (< i %d) %s 'done)", "(cond ((>= i %d) 'done) (else %s))", "(if (>= i %d) 'done %s)", "(or (and (>= i %d) 'done) %s)"]) % ((iters + 50), body))
            defs.append((name, shapes[i], body))
        k = "(call (list %s) %s)"
        start = callto(names[0], shapes[0], "0")
        if style == 0:
            e = "(let () %s (let* ((x %s)) (list x %s)))" % (" ".join("(define (%s . %s) %s)" % (nm, sh, b) if sh == "i0" else "(define %s (lambda %s %s))" % (nm, sh, b) for nm, sh, b in defs), start, GROWN)
        elif style == 1:
            e = "(letrec (%s) (let* ((x %s)) (list x %s)))" % (" ".join("(%s (lambda %s %s))" % d for d in defs), start, GROWN)
        elif style == 2 and n == 1 and shapes[0] in ("(i)", "(i x)"):
            e = "(let* ((x (let f0 (%s) %s))) (list x %s))" % ("(i 0)" if shapes[0] == "(i)" else "(i 0) (x 1)", defs[0][2], GROWN)
        else:
            e = "(begin %s (let* ((x %s)) (list x %s)))" % (" ".join("(set! t%s (lambda %s %s))" % d for d in defs), start, GROWN)
            for nm in names:
                e = e.replace("(%s " % nm, "(t%s " % nm).replace(" %s " % nm, " t%s " % nm)
            e = e
        add(e, "tail positions")

    def callto(name, shape, v="(+ i 1)"):
        x = r.random()
        extra = " 1" if shape == "(i x)" else r.choice(["", " 1 2"]) if shape in ("(i . r)", "i0") else ""
        if x < 0.65:
            return "(%s %s%s)" % (name, v, extra)
        if x < 0.8:
            return "(apply %s (list %s%s))" % (name, v, extra)
        if x < 0.9:
            return "(call-with-values (lambda () (values %s%s)) %s )" % (v, extra, name)
        return "(apply %s %s '(%s))" % (name, v, extra)

    for _ in range(ck.n(420, 30000)):
        loop()

    # every form alone, so that none depends on luck
    class One:
        def __init__(self, i):
            self.i = i

        def choice(self, forms):
            self.n = len(forms)
            return forms[self.i % len(forms)]
    total = 62
    for i in range(total):
        one = One(i)
        body = tail(one, "(f (+ i 1))", 1, "i")
        add("(letrec ((f (lambda (i) (%%probe i 300 1500) (if (< i 1550) %s 'done)))) (let* ((x (f 0))) (list x %s)))" % (body, GROWN), "each tail position")

    # loops through continuations, exceptions and dynamic state: bounded
    BODIES = [
        "(call/cc (lambda (k) (k i)))", "(call/cc (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k i)) (lambda () 2))))", "(guard (e (#t e)) (raise i))", "(guard (e ((string? e) 1) ((number? e) => values)) (raise i))", "(guard (e (#t 1)) (error \"x\" i))", "(guard (e (#t 1)) (car (vector-ref (vector i) 0) (raise 'x)))",
        "(with-exception-handler (lambda (e) 1) (lambda () (+ 1 (raise-continuable i))))", "(call/cc (lambda (k) (with-exception-handler (lambda (e) (k e)) (lambda () (raise i)))))", "(parameterize ((par i)) (par))", "(call/cc (lambda (k) (parameterize ((par i)) (k (par)))))", "(dynamic-wind (lambda () 1) (lambda () i) (lambda () 2))",
        "(call-with-values (lambda () (values i 2 3)) list)", "(force (delay i))", "(force (make-promise i))", "(let ((p (open-output-string))) (write i p) (get-output-string p))", "(let ((p (open-input-string \"(1 2 #t)\"))) (read p))", "(list-tail (vector->list (make-vector 10 i)) 3)", "(map (lambda (x) (* x i)) '(1 2 3))",
        "(string->number (number->string i))", "(expt 3 (modulo i 100))", "(let ((x (list 1 2 3))) (set-cdr! (cddr x) x) (car x))", "(let ((b (box 1))) (set-box! b i) (unbox b))", "(let ((k2 #f) (n 0)) (call/cc (lambda (k) (set! k2 k))) (set! n (+ n 1)) (if (< n 3) (k2 1) n))", "(letrec ((f (lambda (n) (if (= n 0) 0 (+ 1 (f (- n 1))))))) (f 50))",
        "(eval '(let ((x 1)) (+ x 1)) (interaction-environment))", "(apply max (list i 2 3))", "(exact (floor (* 1.5 i)))", "(let ((v (make-bytevector 100 1))) (bytevector-u8-set! v 0 7) (bytevector-copy v 1))", "(string-append \"a\" (make-string 10 #\\x))", "(vector-map + #(1 2 3) (vector i i i))",
        "(guard (e (#t (guard (f (#t 2)) (raise e)))) (raise i))", "(guard (e ((string? e) 0)) (guard (g ((string? g) 1)) (raise \"s\")))", "(let-syntax ((q (syntax-rules () ((_ y) (list y y))))) (q i))",
    ]
    for b in BODIES:
        add("(let ((par (make-parameter 0))) (let* ((x (let loop ((i 0)) (%%probe i 300 1500) %s (if (< i 1550) (loop (+ i 1)) 'done)))) (list x %s)))" % (b, GROWN), "loops around other control")
    for _ in range(ck.n(40, 1500)):
        bs = r.sample(BODIES, r.randint(2, 4))
        add("(let ((par (make-parameter 0))) (let* ((x (let loop ((i 0)) (%%probe i 200 1000) %s (if (< i 1050) %s 'done)))) (list x %s)))" % (" ".join(bs), tail(r, "(loop (+ i 1))", 2, "i"), GROWN), "loops around other control")
    K = [
        "(let ((k #f) (i 0)) (call/cc (lambda (c) (set! k c))) (set! i (+ i 1)) (%probe i 300 1500) (if (< i 1550) (k #f) 'done))",
        "(let ((i 0)) (let ((k (call/cc (lambda (c) c)))) (set! i (+ i 1)) (%probe i 300 1500) (if (< i 1550) (k k) 'done)))",
        "(letrec ((f (lambda (i k) (%probe i 300 1500) (if (< i 1550) (call/cc (lambda (c) (f (+ i 1) k))) (k 'done))))) (call/cc (lambda (k) (f 0 k))))",
        "(letrec ((f (lambda (i k) (%probe i 300 1500) (if (< i 1550) (g (+ i 1) k) (k 'done)))) (g (lambda (i k) (f i k)))) (call/cc (lambda (k) (f 0 k))))",
        "(letrec ((f (lambda (i k) (%probe i 300 1500) (if (< i 1550) (f (+ i 1) (lambda (x) (k x))) 'done)))) (f 1540 (lambda (x) x)))" .replace("1540", "0").replace("(lambda (x) (k x))", "k"),
        "(let ((prod #f) (cons2 #f)) (define (produce) (let loop ((i 0)) (call/cc (lambda (k) (set! prod k) (cons2 i))) (loop (+ i 1)))) (let loop () (let ((i (call/cc (lambda (k) (set! cons2 k) (if prod (prod #f) (produce)))))) (%probe i 300 1500) (if (< i 1550) (loop) 'done))))",
        "(let loop ((p (delay-force (let lp ((i 0)) (%probe i 300 1500) (if (< i 1550) (delay-force (lp (+ i 1))) (delay 'done)))))) (force p))",
        "(letrec ((stream (lambda (i) (%probe i 300 1500) (if (< i 1550) (delay-force (stream (+ i 1))) (make-promise 'done))))) (force (stream 0)))",
    ]
    for k in K:
        add("(let* ((x %s)) (list x %s))" % (k, GROWN), "loops through continuations and promises")

    # a stack of dynamic state must not grow over top-level-like re-entry of dynamic-wind
    # Deep recursion
    for _ in range(ck.n(24, 400)):
        n = r.choice([20000, 60000, 120000])
        ctx = r.choice(NONTAIL)
        if "map" in ctx or "call/cc" in ctx:
            n = 20000
        if "sink" in ctx:
            e = "(begin (set! sink 0) (let f ((n %d)) (if (= n 0) 0 %s)) 'fine)" % (n, ctx % "(f (- n 1))")
            add(e, "deep recursion", "fine")
        else:
            add("(let f ((n %d)) (if (= n 0) 0 %s))" % (n, ctx % "(f (- n 1))"), "deep recursion", str(n))
    for n in (300000,):
        add("(let f ((n %d)) (if (= n 0) 0 (+ 1 (f (- n 1)))))" % n, "deep recursion", str(n))
        add("(letrec ((e? (lambda (n) (if (= n 0) #t (not (o? (- n 1)))))) (o? (lambda (n) (if (= n 0) #t (not (e? (- n 1))))))) (e? %d))" % n, "deep recursion", "#t")

    # Long lists
    N = ck.n(100000, 300000)
    L = "(iota %d)" % N
    LIST = [
        ("(length %s)" % L, str(N)), ("(apply + %s)" % L, str(N * (N - 1) // 2)), ("(length (map (lambda (x) x) %s))" % L, str(N)), ("(length (map + %s %s))" % (L, L), str(N)),
        ("(length (append %s %s))" % (L, L), str(2 * N)), ("(car (reverse %s))" % L, str(N - 1)), ("(fold + 0 %s)" % L, str(N * (N - 1) // 2)), ("(length (fold-right cons '() %s))" % L, str(N)),
        ("(length (filter even? %s))" % L, str(N // 2)), ("(length (list-copy %s))" % L, str(N)), ("(vector-length (list->vector %s))" % L, str(N)), ("(length (vector->list (make-vector %d 0)))" % N, str(N)),
        ("(string-length (list->string (map (lambda (x) #\\a) %s)))" % L, str(N)), ("(length (string->list (make-string %d #\\a)))" % N, str(N)), ("(equal? %s %s)" % (L, L), "#t"), ("(car (memv %d %s))" % (N - 1, L), str(N - 1)), ("(member -1 %s)" % L, "#f"),
        ("(let ((n 0)) (for-each (lambda (x) (set! n (+ n 1))) %s) n)" % L, str(N)), ("(car (list-tail %s %d))" % (L, N - 1), str(N - 1)), ("(last %s)" % L, str(N - 1)), ("(length (delete 5 %s))" % L, str(N - 1)),
        ("(length (apply list %s))" % L, str(N)), ("(length (apply append (map list (iota 3000))))", "3000"), ("(call-with-values (lambda () (partition even? %s)) (lambda (a b) (list (length a) (length b))))" % L, "(%d %d)" % (N // 2, N // 2)), ("(reduce + 0 %s)" % L, str(N * (N - 1) // 2)),
        ("(length (append-map list %s))" % L, str(N)), ("(length (filter-map (lambda (x) (and (even? x) x)) %s))" % L, str(N // 2)), ("(list? %s)" % L, "#t"), ("(length (append! %s %s))" % (L, L), str(2 * N)), ("(length (take %s %d))" % (L, N - 1), str(N - 1)),
        ("(length (drop %s %d))" % (L, N - 1), "1"), ("(assv -1 (map list %s))" % L, "#f"), ("(count even? %s)" % L, str(N // 2)), ("(every number? %s)" % L, "#t"), ("(any symbol? %s)" % L, "#f"), ("(length (list-tabulate %d values))" % N, str(N)), ("(apply max %s)" % L, str(N - 1)),
        ("(string-length (apply string-append (map (lambda (x) \"a\") %s)))" % L, str(N)), ("(length (unfold (lambda (x) (= x %d)) values (lambda (x) (+ x 1)) 0))" % N, str(N)), ("(length (delete-duplicates (map (lambda (x) (modulo x 5)) (iota 3000))))", "5"),
        ("(string-length (call-with-port (open-output-string) (lambda (p) (write %s p) (get-output-string p))))" % L, str(1 + sum(len(str(i)) + 1 for i in range(N)))), ("(length (read (open-input-string (string-append \"(\" (make-string %d #\\space) \"1\" \")\"))))" % N, "1"),
        ("(let ((p (open-output-string))) (write %s p) (equal? %s (read (open-input-string (get-output-string p)))))" % (L, L), "#t"), ("(let ((x %s)) (set-cdr! (last-pair x) x) (list (list? x) (circular-list? x)))" % L, "(#f #t)"), ("(vector-length (apply vector %s))" % L, str(N)),
        ("(length (take-while number? %s))" % L, str(N)), ("(length (concatenate (list %s %s)))" % (L, L), str(2 * N)), ("(length (vector->list (vector-map + (list->vector %s) (make-vector %d 1))))" % (L, N), str(N)), ("(let ((n 0)) (vector-for-each (lambda (x) (set! n (+ n x))) (list->vector %s)) n)" % L, str(N * (N - 1) // 2)),
        ("(length (eval (list 'quote %s) (interaction-environment)))" % L, str(N)), ("(eval (cons '+ %s) (interaction-environment))" % "(iota 5000)", str(5000 * 4999 // 2)), ("(length (do ((i 0 (+ i 1)) (l '() (cons i l))) ((= i %d) l)))" % N, str(N)), ("(string-length (string-map (lambda (c) c) (make-string %d #\\a)))" % N, str(N)),
    ]
    for e, w in LIST:
        add(e, "long lists", w)

    r.shuffle(cases)
    ck.run_cases(cases, batch=20, timeout=40)
    ck.run_known()
