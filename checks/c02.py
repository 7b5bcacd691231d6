"""Unreachable storage is reclaimed: finalisation, live counts, descriptors and memory are watched."""
import os
from vlib import Case

TECHNIQUE = ("runtime monitoring of finalisation and of the heap: objects whose C++ destructor reports to the monitor are stored in randomly mutated object graphs and the set still alive after a collection is compared with the "
             "set a Python model computes as reachable; live objects, resident memory and open descriptors are sampled along long loops")
NOTE = ("Cycles that pass through the elements of a vector or the fields of a record are a known finding and are kept out of the generated graphs. Symbols are interned for ever by design. The collector is judged after explicit collections "
        "(as many as the nesting of vectors needs) and, in the loops without explicit collection, by the bound of live objects and memory.")
RULE = ("random sequences of constructions, mutations (also cyclic), drops and collections over eight roots, with tokens whose finalisation is observed; loops over random compositions of some 70 allocating expressions, sampled early and late; "
        "long loops without explicit collection; distinct by program")
MIN = 400

DEFS = r"""
(define g0 #f) (define g1 #f) (define g2 #f) (define g3 #f) (define g4 #f) (define g5 #f) (define g6 #f) (define g7 #f)
(define-record-type rec (mk-rec a b) rec? (a rec-a set-rec-a!) (b rec-b))
(define (%clear) (%gc) (%gc) (%gc) (%gc) (%gc) (%gc))
(define %base #f)
(define %last #f)
(define par (make-parameter 0))
(define sink 0)
(define (%probe i a b)
  (cond ((= i a) (%clear) (set! %base (%live)))
        ((= i b) (%clear) (set! %last (%live)))
        (else i)))
(define (%grown) (- %last %base))
(define %hi1 0)
(define %hi2 0)
(define %rss0 0)
(define (%sample i n)
  (if (< i (quotient n 2)) (set! %hi1 (max %hi1 (%live))) (set! %hi2 (max %hi2 (%live)))))
(define ring (let ((x (list 1 2 3 4 5 6 7 8))) (set-cdr! (list-tail x 7) x) x))
(define (%keep x) (set-car! ring x) (set! ring (cdr ring)))
"""


# -- graphs of tokens -----------------------------------------------------------

class Node:
    """An object of the model: kind, token identifiers it owns, and the nodes it points to."""
    def __init__(self, kind, refs=()):
        self.kind, self.refs = kind, list(refs)


def graphs(r):
    roots = [None] * 8
    nodes = []
    ntok = [0]
    prog = []
    queries = 0

    def reach():
        seen, todo = set(), [n for n in roots if n]
        while todo:
            n = todo.pop()
            if id(n) in seen:
                continue
            seen.add(id(n))
            todo += [m for m in n.refs if m]
        return [n for n in nodes if id(n) in seen]

    def downward(n):
        seen, todo = set(), [n]
        while todo:
            m = todo.pop()
            if m and id(m) not in seen:
                seen.add(id(m))
                todo += m.refs
        return seen

    def filled():
        return [i for i in range(8) if roots[i]]

    def leaf():
        """An expression and its node: an old root, or a fresh token."""
        f = filled()
        if f and r.random() < 0.45:
            i = r.choice(f)
            return "g%d" % i, roots[i]
        ntok[0] += 1
        n = Node(("token", ntok[0]))
        nodes.append(n)
        return "(%%token %d)" % ntok[0], n

    MAKE = [
        ("(cons {0} {1})", "pair", 2), ("(list {0} {1} {2})", "list3", 3), ("(vector {0} {1})", "vector", 2), ("(make-vector 3 {0})", "vector3", 1), ("(box {0})", "box", 1), ("(mk-rec {0} {1})", "record", 2),
        ("(let ((x {0})) (lambda () x))", "closure", 1), ("(let ((x {0}) (y {1})) (lambda (z) (set! x z) (list x y)))", "closure", 2), ("(let ((x {0})) (delay x))", "promise", 1), ("(make-promise {0})", "made promise", 1),
        ("(make-parameter {0})", "parameter", 1), ("(guard (e (#t e)) (error \"message\" {0} {1}))", "error object", 2), ("(eval (list 'lambda '() (list 'quote {0})) (interaction-environment))", "constant of compiled code", 1),
        ("(let ((x {0})) (let ((k (call/cc (lambda (k) k)))) (if (procedure? k) (cons k (lambda () x)) x)))", "continuation", 1), ("(list->vector (list {0} {1}))", "vector", 2), ("(append (list {0}) (list {1}))", "list", 2),
        ("(vector-map (lambda (x) x) (vector {0} {1}))", "vector", 2), ("(map (lambda (x) (box x)) (list {0} {1}))", "boxes", 2), ("(let loop ((i 0) (x {0})) (if (< i 40) (loop (+ i 1) (list x)) x))", "deep list", 1),
        ("(let ((p (delay (list {0})))) (force p) p)", "forced promise", 1), ("(call-with-values (lambda () (values {0} {1})) (lambda x x))", "list", 2), ("(let ((x (list {0}))) (set-cdr! x x) x)", "circular list", 1),
        ("(letrec ((f (lambda () g)) (g (lambda () f)) (x {0})) (lambda () (f) x))", "mutual closures", 1), ("(parameterize ((par {0})) (par))", "value itself", 1), ("(with-exception-handler (lambda (e) e) (lambda () (raise-continuable {0})))", "value itself", 1),
        ("(dynamic-wind (lambda () #f) (lambda () {0}) (lambda () #f))", "value itself", 1), ("(let-values (((a b) (values {0} {1}))) (cons a b))", "pair", 2), ("(case-lambda ((x) {0}))".replace("{0}", "x"), "no token", 0),
        ("(list->string (map (lambda (x) #\\a) (list {0} {1})))", "drops all", 2), ("(let ((x {0})) 'dropped)", "drops all", 1), ("(apply (lambda (a . b) b) {0} (list {1}))", "keeps second", 2),
    ]
    for _ in range(r.randint(6, 26)):
        x = r.random()
        if x < 0.5:
            t, kind, n = r.choice(MAKE)
            args = [leaf() for _ in range(n)]
            i = r.randrange(8)
            if kind == "no token" or kind == "drops all":
                node = None
            elif kind == "value itself":
                node = args[0][1]
            else:
                node = Node(kind, [a[1] for a in args] if kind != "keeps second" else [args[1][1]])
                nodes.append(node)
            prog.append("(set! g%d %s)" % (i, t.format(*[a[0] for a in args])))
            roots[i] = node
        elif x < 0.68:
            f = [i for i in filled() if roots[i].kind == "pair"]
            if not f:
                continue
            i = r.choice(f)
            e, n = leaf()
            w = r.randrange(2)
            # no cycle through a vector or a record
            below = downward(n)
            if id(roots[i]) in below and any(m.kind in ("vector", "vector3", "record") for m in nodes if id(m) in below and id(roots[i]) in downward(m)):
                e, n = "#f", None
            prog.append("(set-c%sr! g%d %s)" % ("ad"[w], i, e))
            roots[i].refs[w] = n
        elif x < 0.78:
            f = [i for i in filled() if roots[i].kind in ("box", "vector", "record", "parameter")]
            if not f:
                continue
            i = r.choice(f)
            e, n = leaf()
            if id(roots[i]) in downward(n):
                ntok[0] += 1
                n = Node(("token", ntok[0]))
                nodes.append(n)
                e = "(%%token %d)" % ntok[0]
            if roots[i].kind == "box":
                prog.append("(set-box! g%d %s)" % (i, e))
                roots[i].refs[0] = n
            elif roots[i].kind == "vector":
                w = r.randrange(2)
                prog.append("(vector-set! g%d %d %s)" % (i, w, e))
                roots[i].refs[w] = n
            elif roots[i].kind == "record":
                prog.append("(set-rec-a! g%d %s)" % (i, e))
                roots[i].refs[0] = n
        elif x < 0.92:
            i = r.randrange(8)
            if r.random() < 0.7 or not filled():
                prog.append("(set! g%d #f)" % i)
                roots[i] = None
            else:
                j = r.choice(filled())
                prog.append("(set! g%d g%d)" % (i, j))
                roots[i] = roots[j]
        else:
            prog.append(r.choice(["(%gc)", "(begin (%clear) (make-vector 20 'x) (%gc))", "(let loop ((i 0)) (if (< i 50) (loop (+ i 1))))"]))
    prog.append("'settle")
    want = sorted(n.kind[1] for n in reach() if isinstance(n.kind, tuple))
    return prog, want


# -- bodies of loops --------------------------------------------------------------

BODIES = [
    "(cons i i)", "(list i 2 3)", "(make-vector 10 i)", "(vector i (list i))", "(make-string 20 #\\a)", "(string-append \"abc\" (number->string i))", "(make-bytevector 30 1)", "(bytevector-append (bytevector 1 2) (bytevector 3))", "(s64vector i 2 3)",
    "(f32vector 1.5 2.5)", "(expt 3 (+ 100 (modulo i 50)))", "(/ (+ i 1) 7919)", "(make-rectangular i 2)", "(inexact i)", "(box (list i))", "(lambda () i)", "(let ((x i)) (lambda (y) (set! x y) x))", "(delay (list i))", "(force (delay (list i)))", "(make-promise i)",
    "(make-parameter i)", "(parameterize ((par (list i))) (par))", "(mk-rec i (list i))", "(let ((x (mk-rec i 1))) (set-rec-a! x 2) x)", "(open-input-string \"abc def\")", "(let ((p (open-output-string))) (write i p) (get-output-string p))", "(open-output-string)",
    "(open-input-bytevector (bytevector 1 2 3))", "(let ((p (open-output-bytevector))) (write-u8 7 p) (get-output-bytevector p))", "(read (open-input-string \"(a b #(1 2) \\\"s\\\" #\\\\x 1.5 #0=(1 . #0#))\"))", "(guard (e (#t e)) (raise (list i)))", "(guard (e (#t (error-object-irritants e))) (error \"m\" i))",
    "(guard (e (#t 1)) (vector-ref (vector 1 2) 'a))", "(call/cc (lambda (k) k))", "(call/cc (lambda (k) (list k i)))", "(call/cc (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k (list i))) (lambda () 2))))", "(let ((x (list 1 2))) (set-cdr! (cdr x) x) x)", "(let ((x (cons 1 2))) (set-car! x x) (set-cdr! x x))",
    "(letrec ((f (lambda () g)) (g (lambda () f))) f)", "(let ((b (box #f))) (set-box! b (lambda () b)) b)", "(let ((p #f)) (set! p (delay p)) (force p))", "(let ((x (list #f))) (set-car! x (lambda () x)) x)", "(let ((f #f)) (set! f (lambda () (call/cc (lambda (k) (set! f k) f)))) (f))",
    "(eval (list 'lambda '(x) (list 'list 'x i)) (interaction-environment))", "(eval '(let loop ((i 0)) (if (< i 3) (loop (+ i 1)) (list i))) (interaction-environment))", "(map (lambda (x) (list x i)) '(1 2 3))", "(vector-map (lambda (x) (+ x i)) #(1 2 3))", "(string-map char-upcase \"abc\")",
    "(apply list i '(1 2 3))", "(call-with-values (lambda () (values i (list i))) list)", "(vector->list (make-vector 5 i))", "(list->string (list #\\a #\\b))", "(string->list \"hello\")", "(utf8->string (bytevector 65 66))", "(string->utf8 \"h\u00e9\")", "(string->symbol \"a-known-symbol\")", "(symbol->string 'abc)",
    "(list-copy (list 1 2 3))", "(vector-copy (vector 1 2 3))", "(string-copy \"hello\" 1)", "(reverse (list 1 2 3))", "(append (list 1 2) (list 3) i)", "(assoc 2 '((1 . 1) (2 . 2)))", "(let-syntax ((q (syntax-rules () ((_ y) (list y y))))) (q i))", "`(1 ,i ,@(list 1 2) #(,i))", "(let*-values (((a b) (values i 2)) ((c) (values 3))) (list a b c))",
    "(exact-integer-sqrt (* i i))", "(number->string (/ i 7.0))", "(string->number \"1e10\")", "(current-jiffy)", "(features)", "(filter even? (iota 10))", "(fold cons '() '(1 2 3))", "(delete-duplicates '(1 2 1))", "(do ((j 0 (+ j 1)) (l '() (cons j l))) ((= j 5) l))", "(case-lambda ((x) i) ((x y) 2))",
    "(with-exception-handler (lambda (e) (list e)) (lambda () (raise-continuable i)))", "(call-with-port (open-input-string \"x y\") read)", "(read-line (open-input-string \"line\\nline\"))", "(call-with-output-string2 i)", "(vector-fill! (make-vector 5 0) (list i))", "(let ((v (vector 1 2 3))) (vector-set! v 0 (list v2)) v)",
    "(list-tabulate 5 (lambda (j) (make-string j #\\x)))", "(bitwise-and (expt 2 100) (- (expt 2 101) 1))", "(let ((k2 #f) (n 0)) (call/cc (lambda (k) (set! k2 k))) (set! n (+ n 1)) (if (< n 3) (k2 1) n))", "(define-in-place i)", "(exact 1.5)", "(let () (define-record-type q (mk-q x) q? (x q-x)) (mk-q i))",
    "(let () (define-values (a b . c) (values 1 2 3 4)) (list a b c))", "(guard (e ((string? e) 1) ((symbol? e) 2)) (dynamic-wind (lambda () 1) (lambda () (raise 'a)) (lambda () 2)))", "(let ((s (make-string 5 #\\a))) (string-set! s 0 #\\\u3042) s)",
    "(with-exception-handler (lambda (e) 1) (lambda () (call/cc (lambda (k) (raise-continuable (list k))))))", "(guard (e ((read-error? e) 1)) (read (open-input-string \"(1 . \")))", "(guard (e ((file-error? e) 1)) (open-input-file \"/nonexistent/file\"))", "(char-upcase #\\a)",
]
BODIES = [b for b in BODIES if "string2" not in b and "v2" not in b and "in-place" not in b]


def bodies(r, n):
    out = []
    for _ in range(n):
        b = r.choice(BODIES)
        x = r.random()
        out.append(b if x < 0.55 else "(set! sink %s)" % b if x < 0.75 else "(%%keep %s)" % b)
    return out


def loops(r):
    bs = bodies(r, r.choice([1, 2, 3, 4]))
    n = r.choice([900, 1400])
    return "(begin (let loop ((i 0)) (%%probe i 200 %d) %s (if (< i %d) (loop (+ i 1)))) (let ((g (%%grown))) (if (< g 200) 'bounded g)))" % (n, " ".join(bs), n + 10)


def run(ck):
    r = ck.rng
    # 1. tokens
    cases = []
    for _ in range(ck.n(450, 20000)):
        prog, want = graphs(r)
        text = "(begin %s)" % " ".join(prog)
        e = "(let* ((a (%%clear)) (t (%%tokens))) (list t (%%finalised-twice)))"
        ck.stat("tokens created", text.count("(%token"))
        ck.stat("tokens expected to be alive", len(want))
        # each mutation as a datum of its own, then the question
        cases.append((prog, "(begin (%%clear) (list (%%tokens) (%%finalised-twice)))" % (), "((%s) 0)" % " ".join(map(str, want))))
    flat = []
    for prog, ask, want in cases:
        flat.append(Case(ask, want.replace("(() 0)", "(() 0)"), "reachable tokens", DEFS + "\n".join("(begin %s 0)" % p for p in prog)))
    ck.run_cases(flat, batch=1, timeout=20)

    # 2. live objects along loops
    cases = [Case("(begin (let loop ((i 0)) (%%probe i 200 1100) %s (if (< i 1110) (loop (+ i 1)))) (let ((g (%%grown))) (if (< g 200) 'bounded g)))" % b, "bounded", "each allocating expression", DEFS) for b in BODIES]
    for _ in range(ck.n(60, 5000)):
        cases.append(Case(loops(r), "bounded", "loops over compositions", DEFS))
    r.shuffle(cases)
    ck.run_cases(cases, batch=12, timeout=60)

    # 3. without explicit collection: live objects and memory
    cases = []
    N = ck.n(60000, 400000)
    cheap = [b for b in BODIES if "eval" not in b and "syntax" not in b and "record-type" not in b and "guard" not in b]
    for k in range(ck.n(20, 300)):
        bs = " ".join((b if r.random() < 0.8 else "(%%keep %s)" % b) for b in r.sample(cheap, r.choice([2, 3, 4])))
        cases.append(Case("(begin (let loop ((i 0)) (if (= 0 (modulo i 64)) (%%sample i %d)) %s (if (< i %d) (loop (+ i 1)))) (if (< %%hi2 (+ 20000 (* 1.25 %%hi1))) 'bounded (list %%hi1 %%hi2)))" % (N, bs, N),
                          "bounded", "loops without explicit collection", DEFS))
    # large payloads
    for e, n in (("(make-bytevector 1000000 i)", 3000), ("(make-vector 100000 i)", 3000), ("(make-string 250000 #\\a)", 3000), ("(expt 3 (+ 600000 i))", 1500), ("(make-f64vector 100000 1.5)", 3000), ("(let ((b (make-bytevector 500000 1))) (bytevector-append b b))", 2000),
                 ("(string-append (make-string 100000 #\\a) \"b\")", 3000), ("(vector->list (make-vector 10000 i))", 1500), ("(list->vector (vector->list (make-vector 10000 i)))", 1500)):
        n = ck.n(n, n * 3)
        e2 = e.replace(" i)", " 1)") if "byte" in e else e
        cases.append(Case("(begin (let loop ((i 0)) %s (if (< i %d) (loop (+ i 1)))) (if (< (%%rss) 400000) 'bounded (%%rss)))" % (e2, n), "bounded", "large payloads without explicit collection", DEFS))
    ck.run_cases(cases, batch=1, timeout=120, mem_mb=2500)

    # 4. ports that are dropped without being closed give their descriptors back
    d = ck.scratch()
    with open(os.path.join(d, "in"), "w") as f:
        f.write("some text (1 2 3)\n" * 20)
    cases = []
    opens = ['(open-input-file "%s/in")', '(open-binary-input-file "%s/in")', '(open-output-file "%s/out{0}")', '(open-binary-output-file "%s/out{0}")', '(let ((p (open-input-file "%s/in"))) (read p) p)', '(let ((p (open-output-file "%s/out{0}"))) (write i p) p)',
             '(call-with-input-file "%s/in" (lambda (p) (read-line p)))', '(with-input-from-file "%s/in" read)', '(let ((p (open-input-file "%s/in"))) (close-port p) p)', '(let ((p (open-input-file "%s/in"))) (lambda () p))',
             '(call/cc (lambda (k) (let ((p (open-input-file "%s/in"))) (k (read-char p)))))', '(guard (e (#t 1)) (let ((p (open-input-file "%s/in"))) (raise p)))', '(let* ((p (open-input-file "%s/in")) (l (list p))) (set-cdr! l l) l)', '(vector (open-input-file "%s/in"))']
    k = 0
    for o in opens:
        for wrap in ("%s", "(%%keep %s)") if ck.quick else ("%s", "(%%keep %s)", "(set! sink %s)", "(list %s)"):
            k += 1
            e = wrap.replace("%%", "%").replace("%s", o % d).replace("{0}", str(k))
            cases.append(Case("(begin (%%clear) (let ((before (%%fds))) (let loop ((i 0)) %s (if (= 0 (modulo i 25)) (%%gc)) (if (< i 2000) (loop (+ i 1)))) (set! sink 0) (let lp ((i 0)) (if (< i 8) (begin (%%keep #f) (lp (+ i 1))))) (%%clear) (- (%%fds) before)))" % e, "0",
                              "descriptors of dropped ports", DEFS))
    ck.run_cases(cases, batch=1, timeout=60)
    # what was written to a port is in the file when the port has been reclaimed
    cases = []
    for k in range(ck.n(12, 200)):
        n = r.choice([1, 10, 1000, 20000])
        f = os.path.join(d, "w%d" % k)
        w = r.choice(["(write-string (make-string %d #\\x) p)" % n, "(let loop ((i 0)) (if (< i %d) (begin (write-char #\\x p) (loop (+ i 1)))))" % n])
        cases.append(Case('(begin (let ((p (open-output-file "%s"))) %s) (%%clear) (let ((s (read-line (open-input-file "%s")))) (if (eof-object? s) 0 (string-length s))))' % (f, w, f), str(n), "a reclaimed output port has delivered its data", DEFS))
    ck.run_cases(cases, batch=1, timeout=60)

    # 5. the same under AddressSanitizer: finalised once, nothing touched afterwards
    ck.run_cases([Case(c.expr, c.want, "reachable tokens, sanitized", c.defs) for c in r.sample(flat, ck.n(40, 3000))], variant="san", batch=1, timeout=60)
    ck.run_known()
