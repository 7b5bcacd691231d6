"""List procedures against Python models of R7RS and SRFI 1."""
import random
import reenter
from vlib import Case

TECHNIQUE = "monitored execution of generated calls with a differential oracle (Python models of R7RS and SRFI 1), with the calls of procedure arguments logged and the arguments inspected afterwards"
NOTE = ("Held on the generated calls only: proper, dotted and circular lists of up to 60 elements (some of 20000), up to four list arguments of different lengths. Elements are exact integers, symbols, characters, booleans and nested lists; "
        "list arguments of linear-update procedures are not inspected. Trusts the models in checks/c18.py.")
RULE = ("random calls of every list procedure on random lists with duplicates, logging procedure arguments; the result, the arguments afterwards and the log "
        "(in order where one is prescribed, else as a multiset) are compared; distinct by text")
MIN = 2000

DEFS = r"""
(define %log '())
(define (%note . xs) (set! %log (cons xs %log)))
(define (%less? a b)
  (cond ((and (number? a) (number? b)) (< a b)) ((number? a) #t) ((number? b) #f) ((null? b) #f) ((null? a) #t)
        ((and (pair? a) (pair? b)) (if (equal? (car a) (car b)) (%less? (cdr a) (cdr b)) (%less? (car a) (car b))))
        ((pair? a) #f) ((pair? b) #t) (else (string<? (%text a) (%text b)))))
(define (%text x) (let ((p (open-output-string))) (write x p) (get-output-string p)))
(define (%insert x l) (if (or (null? l) (string<=? (%text x) (%text (car l)))) (cons x l) (cons (car l) (%insert x (cdr l)))))
(define (%sort l) (let loop ((l l) (r '())) (if (null? l) r (loop (cdr l) (%insert (car l) r)))))
(define (%ordered) (reverse %log))
(define (%multiset) (%sort %log))
(define-syntax %values->list (syntax-rules () ((_ e) (call-with-values (lambda () e) list))))
(define (%take l n) (if (= n 0) '() (cons (car l) (%take (cdr l) (- n 1)))))
"""


class Sym(str):
    __slots__ = ()


class Ch(str):
    __slots__ = ()


class Dot(tuple):
    """Dotted list: (items, tail)."""


def show(x):
    if x is True:
        return "#t"
    if x is False:
        return "#f"
    if isinstance(x, Sym):
        return str.__str__(x)
    if isinstance(x, Ch):
        return "#\\" + str.__str__(x)
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Dot):
        items, tail = x
        if not items:
            return show(tail)
        if isinstance(tail, list):
            return show(items + tail)
        return "(" + " ".join(map(show, items)) + " . " + show(tail) + ")"
    if isinstance(x, list):
        return "(" + " ".join(map(show, x)) + ")"
    raise ValueError(x)


def cons(a, b):
    if isinstance(b, list):
        return [a] + b
    if isinstance(b, Dot):
        return Dot(([a] + b[0], b[1]))
    return Dot(([a], b))


def dot(items, tail):
    if isinstance(tail, list):
        return list(items) + tail
    if isinstance(tail, Dot):
        return Dot((list(items) + tail[0], tail[1]))
    return Dot((list(items), tail)) if items else tail


def eqv(a, b):
    return type(a) is type(b) and not isinstance(a, (list, Dot)) and a == b or (isinstance(a, list) and isinstance(b, list) and not a and not b)


def equal(a, b):
    return type(a) is type(b) and show(a) == show(b)


class G:
    def __init__(self, rng):
        self.r = rng

    def atom(self):
        r = self.r
        k = r.random()
        if k < 0.6:
            return r.randint(-6, 12)
        if k < 0.68:
            return r.choice([10 ** 20, -2 ** 40, 2 ** 31, 2 ** 62 + 1])
        if k < 0.86:
            return Sym(r.choice("abcdxyz"))
        if k < 0.93:
            return Ch(r.choice("abc"))
        return r.choice([True, False])

    def small(self):
        r = self.r
        return r.randint(-6, 12) if r.random() < 0.6 else Sym(r.choice("abcxyz")) if r.random() < 0.8 else r.choice([True, False])

    def item(self, depth=1):
        if depth and self.r.random() < 0.2:
            return [self.item(depth - 1) for _ in range(self.r.randint(0, 3))]
        return self.atom()

    def n(self):
        return self.r.choice((0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 60))

    def lst(self, of=None, n=None):
        of = of or self.item
        return [of() for _ in range(self.n() if n is None else n)]

    def ints(self, n=None):
        return self.lst(lambda: self.r.randint(-9, 20), n)

    def nonempty(self, of=None):
        return self.lst(of, max(1, self.n()))


# ---- helpers to build a case -------------------------------------------------

def case(tag, call, want, args=(), log=None, multiset=False):
    """args: [(name, value)] bound to fresh lists; the result is (value args log)."""
    b = " ".join("(%s %s)" % (n, build(v)) for n, v in args)
    keep = [(n, v) for n, v in args]
    logx = " %s" % ("(%multiset)" if multiset else "(%ordered)") if log is not None else ""
    expr = "(let* (%s) (set! %%log '()) (let* ((%%result %s)) (list %%result%s%s)))" % (b, call, logx, "".join(" " + n for n, _ in keep))
    out = [want]
    if log is not None:
        out.append(sorted(log, key=show) if multiset else log)
    out += [v for _, v in keep]
    return Case(expr, show(out), tag, DEFS, not args)


def plain(tag, expr, want):
    return Case(expr, show(want), tag, DEFS)


def build(v):
    """An expression that makes v afresh."""
    if isinstance(v, list):
        return "(list %s)" % " ".join(map(build, v)) if v else "'()"
    if isinstance(v, Dot):
        return "(cons* %s %s)" % (" ".join(map(build, v[0])), build(v[1])) if v[0] else build(v[1])
    if isinstance(v, Sym):
        return "'" + v
    return show(v)


PREDS = [("even?", lambda x: isinstance(x, int) and not isinstance(x, bool) and x % 2 == 0, "(lambda (x) (%note x) (and (number? x) (even? x)))"),
         ("symbol?", lambda x: isinstance(x, Sym), "(lambda (x) (%note x) (symbol? x))"),
         ("pos", lambda x: isinstance(x, int) and not isinstance(x, bool) and x > 3, "(lambda (x) (%note x) (and (number? x) (> x 3)))"),
         ("none", lambda x: False, "(lambda (x) (%note x) #f)"), ("all", lambda x: True, "(lambda (x) (%note x) 'yes)")]


def num(x):
    return isinstance(x, int) and not isinstance(x, bool)


def gen_select(g):
    r = g.r
    k = r.choice(["list-ref", "take", "drop", "take-right", "drop-right", "split-at", "nth", "last", "last-pair", "length", "length+", "list-tail", "car+cdr", "take!", "drop-right!", "split-at!",
                  "cxr", "list-copy", "first", "list-set!"])
    a = g.lst()
    dotted = r.random() < 0.3 and k in ("take", "drop", "take-right", "drop-right", "last", "last-pair", "list-tail", "split-at", "list-copy")
    x = dot(a, g.atom()) if dotted and a else a
    i = r.randint(0, len(a))
    A = [("a", x)]
    if k == "list-ref" and a:
        i = r.randrange(len(a))
        return case(k, "(list-ref a %d)" % i, a[i], A)
    if k in ("take", "take!"):
        c = case(k, "(%s a %d)" % (k, i), a[:i], A if k == "take" else [])
        if k == "take!":
            return plain(k, "(let ((a %s)) (take! a %d))" % (build(x), i), a[:i])
        return c
    tail = (lambda j: dot(a[j:], x[1]) if isinstance(x, Dot) else a[j:])
    if k in ("drop", "list-tail"):
        return case(k, "(%s a %d)" % (k, i), tail(i), A)
    if k == "take-right":
        return case(k, "(take-right a %d)" % i, tail(len(a) - i), A)
    if k == "drop-right":
        return case(k, "(drop-right a %d)" % i, a[:len(a) - i], A)
    if k == "drop-right!":
        return plain(k, "(let ((a %s)) (drop-right! a %d))" % (build(a), i), a[:len(a) - i])
    if k == "split-at":
        return case(k, "(%%values->list (split-at a %d))" % i, [a[:i], tail(i)], A)
    if k == "split-at!":
        return plain(k, "(let ((a %s)) (%%values->list (split-at! a %d)))" % (build(a), i), [a[:i], a[i:]])
    if k == "nth":
        names = "first second third fourth fifth sixth seventh eighth ninth tenth".split()
        a = g.lst(n=10 + r.randint(0, 2))
        i = r.randrange(10)
        return case(k, "(%s a)" % names[i], a[i], [("a", a)])
    if k == "last" and a:
        return case(k, "(last a)", a[-1], A)
    if k == "last-pair" and a:
        return case(k, "(last-pair a)", tail(len(a) - 1), A)
    if k in ("length", "length+"):
        if k == "length+" and r.random() < 0.3 and a:
            return plain(k, "(length+ (circular-list %s))" % " ".join(map(build, a)), False)
        return case(k, "(%s a)" % k, len(a), [("a", a)])
    if k == "car+cdr" and a:
        return case(k, "(%values->list (car+cdr a))", [a[0], tail(1)], A)
    if k == "list-copy":
        return plain(k, "(let* ((a %s) (b (list-copy a))) (if (pair? b) (set-car! b 'changed)) (list a b (eq? a b)))" % build(x),
                     [x, dot([Sym("changed")] + a[1:], x[1]) if isinstance(x, Dot) else ([Sym("changed")] + a[1:] if a else []), not a])
    if k == "list-set!" and a:
        i = r.randrange(len(a))
        v = g.item()
        return plain(k, "(let* ((a %s) (b a)) (list-set! a %d %s) (list a b))" % (build(a), i, build(v)), [a[:i] + [v] + a[i + 1:]] * 2)
    # cxr
    depth = r.randint(2, 4)
    path = "".join(r.choice("ad") for _ in range(depth))
    v = g.atom()
    t = v
    for c in path:
        t = cons(t, g.atom()) if c == "a" else cons(g.atom(), t)
    # path read from the left is applied last: c[path]r
    t2 = v
    for c in path:
        t2 = cons(t2, Sym("q")) if c == "a" else cons(Sym("q"), t2)
    return case("cxr", "(c%sr a)" % path, v, [("a", t2)])


def gen_construct(g):
    r = g.r
    k = r.choice(["append", "append", "append!", "reverse", "reverse!", "append-reverse", "append-reverse!", "concatenate", "cons*", "make-list", "list-tabulate", "iota", "xcons", "list", "zip", "unzip", "circular-list", "flatten"])
    if k in ("append", "concatenate", "append!"):
        n = r.choice((0, 1, 2, 2, 3, 4))
        ls = [g.lst() for _ in range(n)]
        out = [x for l in ls for x in l]
        if n and k != "append!" and r.random() < 0.3:
            t = g.atom() if r.random() < 0.5 else Dot(([g.atom()], g.atom()))
            ls[-1] = t
            out = dot([x for l in ls[:-1] for x in l], t)
        names = ["abcd"[i] for i in range(n)]
        if k == "append":
            return case(k, "(append %s)" % " ".join(names), out, list(zip(names, ls)))
        if k == "concatenate":
            return case(k, "(concatenate (list %s))" % " ".join(names), out, list(zip(names, ls)))
        return plain(k, "(append! %s)" % " ".join(map(build, ls)), out)
    a = g.lst()
    if k == "reverse":
        return case(k, "(reverse a)", a[::-1], [("a", a)])
    if k == "reverse!":
        return plain(k, "(reverse! %s)" % build(a), a[::-1])
    if k in ("append-reverse", "append-reverse!"):
        t = g.lst() if r.random() < 0.7 else g.atom()
        if k == "append-reverse":
            return case(k, "(append-reverse a b)", dot(a[::-1], t), [("a", a), ("b", t)])
        return plain(k, "(append-reverse! %s %s)" % (build(a), build(t)), dot(a[::-1], t))
    if k == "cons*":
        t = g.item()
        return plain(k, "(cons* %s)" % " ".join(map(build, a + [t])), dot(a, t))
    if k == "make-list":
        v = g.atom()
        n = g.n()
        return plain(k, "(make-list %d %s)" % (n, build(v)), [v] * n)
    if k == "list-tabulate":
        n = g.n()
        return plain(k, "(list-tabulate %d (lambda (i) (* i i)))" % n, [i * i for i in range(n)])
    if k == "iota":
        n, s, st = g.n(), r.randint(-50, 50), r.randint(-5, 5)
        c = r.randrange(3)
        if c == 0:
            return plain(k, "(iota %d)" % n, list(range(n)))
        if c == 1:
            return plain(k, "(iota %d %d)" % (n, s), [s + i for i in range(n)])
        return plain(k, "(iota %d %d %d)" % (n, s, st), [s + i * st for i in range(n)])
    if k == "xcons":
        x = g.item()
        return case(k, "(xcons a b)", cons(x, a), [("a", a), ("b", x)])
    if k == "list":
        return plain(k, "(list %s)" % " ".join(map(build, a)), a)
    if k == "zip":
        n = r.randint(1, 3)
        ls = [g.lst() for _ in range(n)]
        names = ["abc"[i] for i in range(n)]
        return case(k, "(zip %s)" % " ".join(names), [list(t) for t in zip(*ls)], list(zip(names, ls)))
    if k == "unzip":
        n = r.randint(1, 5)
        rows = [[g.atom() for _ in range(n + r.randint(0, 1))] for _ in range(g.n())]
        cols = [[row[i] for row in rows] for i in range(n)]
        return case(k, "(%%values->list (unzip%d a))" % n, cols, [("a", rows)])
    if k == "circular-list":
        a = g.nonempty()
        n = r.randint(0, 30)
        return plain(k, "(%%take (circular-list %s) %d)" % (" ".join(map(build, a)), n), [a[i % len(a)] for i in range(n)])
    ls = [g.lst() for _ in range(g.n() % 6)]
    return plain("apply append", "(apply append (list %s))" % " ".join(map(build, ls)), [x for l in ls for x in l])


def multi(g, nmax=3):
    n = g.r.choice((1, 1, 1, 2, 2, 3)[:3 + nmax])
    ls = [g.lst() for _ in range(n)]
    if g.r.random() < 0.4:
        m = len(ls[0])
        ls = [g.lst(n=m) for _ in range(n)]
    names = ["abc"[i] for i in range(n)]
    return n, ls, names


def gen_map(g):
    r = g.r
    k = r.choice(["map", "for-each", "map-in-order", "filter-map", "append-map", "fold", "fold-right", "reduce", "reduce-right", "any", "every", "list-index", "count", "pair-fold", "pair-fold-right",
                  "pair-for-each", "unfold", "unfold-right", "map!", "append-map!", "apply"])
    n, ls, names = multi(g)
    A = list(zip(names, ls))
    rows = [list(t) for t in zip(*ls)]
    L = " ".join(names)
    if k in ("map", "map!"):
        c = "(%s (lambda xs (apply %%note xs) (cons 'f xs)) %s)" % (k, L)
        want = [[Sym("f")] + row for row in rows]
        if k == "map!":
            return plain(k, "(let* (%s) %s)" % (" ".join("(%s %s)" % (m, build(v)) for m, v in A), c), want) if len(set(map(len, ls))) == 1 else gen_map(g)
        return case(k, c, want, A, rows, True)
    if k == "map-in-order":
        return case(k, "(map-in-order (lambda xs (apply %%note xs) (cons 'f xs)) %s)" % L, [[Sym("f")] + row for row in rows], A, rows)
    if k == "for-each":
        return case(k, "(begin (for-each (lambda xs (apply %%note xs)) %s) 'done)" % L, Sym("done"), A, rows)
    if k == "filter-map":
        want = [row for row in rows if num(row[0])]
        return case(k, "(filter-map (lambda xs (apply %%note xs) (and (number? (car xs)) xs)) %s)" % L, want, A, rows, True)
    if k in ("append-map", "append-map!"):
        return case(k, "(%s (lambda xs (apply %%note xs) (if (symbol? (car xs)) '() (map (lambda (x) x) xs))) %s)" % (k, L), [x for row in rows if not isinstance(row[0], Sym) for x in row], A, rows, True) \
            if k == "append-map" else plain(k, "(let* (%s) (append-map! (lambda xs (append xs (list 1))) %s))" % (" ".join("(%s %s)" % (m, build(v)) for m, v in A), L), [x for row in rows for x in row + [1]])
    if k in ("fold", "fold-right"):
        acc = [Sym("k")]
        log = []
        for row in (rows if k == "fold" else rows[::-1]):
            log.append(row + [len(acc)])
            acc = [row] + acc
        return case(k, "(%s (lambda xs (let* ((rx (reverse xs)) (acc (car rx)) (row (reverse (cdr rx)))) (apply %%note (append row (list (length acc)))) (cons row acc))) '(k) %s)" % (k, L), acc, A, log)
    if k in ("reduce", "reduce-right"):
        a = g.ints()
        log = []
        if not a:
            acc = Sym("none")
        elif k == "reduce":
            acc = a[0]
            for x in a[1:]:
                log.append([x, acc])
                acc = x - 2 * acc
        else:
            acc = a[-1]
            for x in a[-2::-1]:
                log.append([x, acc])
                acc = x - 2 * acc
        return case(k, "(%s (lambda (x y) (%%note x y) (- x (* 2 y))) 'none a)" % k, acc, [("a", a)], log)
    if k in ("any", "every", "list-index", "count"):
        name, f, _ = r.choice(PREDS)
        test = {"even?": "(and (number? (car xs)) (even? (car xs)))", "symbol?": "(symbol? (car xs))", "pos": "(and (number? (car xs)) (> (car xs) 3))", "none": "#f", "all": "#t"}[name]
        log = []
        if k == "any":
            res = False
            for row in rows:
                log.append(row)
                if f(row[0]):
                    res = row
                    break
        elif k == "every":
            res = True
            for row in rows:
                log.append(row)
                res = row if f(row[0]) else False
                if res is False:
                    break
        elif k == "list-index":
            res = False
            for i, row in enumerate(rows):
                log.append(row)
                if f(row[0]):
                    res = i
                    break
        else:
            log = rows
            res = sum(1 for row in rows if f(row[0]))
        return case(k, "(%s (lambda xs (apply %%note xs) (and %s xs)) %s)" % (k, test, L), res, A, log)
    if k in ("pair-fold", "pair-fold-right"):
        m = min(map(len, ls))
        tails = [[l[i:] for l in ls] for i in range(m)]
        acc = [Sym("k")]
        for t in (tails if k == "pair-fold" else tails[::-1]):
            acc = [t] + acc
        return case(k, "(%s (lambda xs (let ((rx (reverse xs))) (cons (reverse (cdr rx)) (car rx)))) '(k) %s)" % (k, L), acc, A)
    if k == "pair-for-each":
        m = min(map(len, ls))
        return case(k, "(begin (pair-for-each (lambda xs (apply %%note xs)) %s) 'done)" % L, Sym("done"), A, [[l[i:] for l in ls] for i in range(m)])
    if k == "unfold":
        m = g.n()
        if r.random() < 0.5:
            return plain(k, "(unfold (lambda (x) (= x %d)) (lambda (x) (* x x)) (lambda (x) (+ x 1)) 0)" % m, [i * i for i in range(m)])
        return plain(k, "(unfold (lambda (x) (= x %d)) (lambda (x) (* x x)) (lambda (x) (+ x 1)) 0 (lambda (x) (list 'end x)))" % m, [i * i for i in range(m)] + [Sym("end"), m])
    if k == "unfold-right":
        m = g.n()
        t = g.lst()
        if r.random() < 0.5:
            return plain(k, "(unfold-right (lambda (x) (= x %d)) (lambda (x) (* x x)) (lambda (x) (+ x 1)) 0)" % m, [i * i for i in range(m)][::-1])
        return plain(k, "(unfold-right (lambda (x) (= x %d)) (lambda (x) (* x x)) (lambda (x) (+ x 1)) 0 %s)" % (m, build(t)), [i * i for i in range(m)][::-1] + t)
    a, b = g.lst(), g.lst()
    return case("apply", "(apply list %s b)" % " ".join(map(build, a)), a + b, [("b", b)])


def gen_filter(g):
    r = g.r
    k = r.choice(["filter", "remove", "partition", "find", "find-tail", "take-while", "drop-while", "span", "break", "delete", "delete-duplicates", "filter!", "remove!", "partition!", "take-while!", "span!", "break!",
                  "delete!", "delete-duplicates!"])
    a = g.lst()
    _, f, s = r.choice(PREDS)
    A = [("a", a)]
    base = k.rstrip("!")
    first = next((i for i, x in enumerate(a) if f(x)), len(a))
    firstnot = next((i for i, x in enumerate(a) if not f(x)), len(a))
    log = None
    ordered = False
    if base == "filter":
        want = [x for x in a if f(x)]
        log = [[x] for x in a]
    elif base == "remove":
        want = [x for x in a if not f(x)]
        log = [[x] for x in a]
    elif base == "partition":
        want = [[x for x in a if f(x)], [x for x in a if not f(x)]]
        log = [[x] for x in a]
    elif base == "find":
        want = a[first] if first < len(a) else False
        log = [[x] for x in a[:first + 1]]
        ordered = True
    elif base == "find-tail":
        want = a[first:] if first < len(a) else False
        log = [[x] for x in a[:first + 1]]
        ordered = True
    elif base in ("take-while", "drop-while", "span"):
        want = {"take-while": a[:firstnot], "drop-while": a[firstnot:], "span": [a[:firstnot], a[firstnot:]]}[base]
        log = [[x] for x in a[:firstnot + 1]]
        ordered = True
    elif base == "break":
        want = [a[:first], a[first:]]
        log = [[x] for x in a[:first + 1]]
        ordered = True
    elif base == "delete":
        x = r.choice(a) if a and r.random() < 0.7 else g.item()
        if r.random() < 0.3:
            a = g.ints()
            t = r.randint(-5, 15)
            call = "(%s %d a <)" % (k, t)
            want = [y for y in a if not t < y]
        else:
            call = "(%s %s a)" % (k, build(x))
            want = [y for y in a if not equal(x, y)]
    else:
        if r.random() < 0.3:
            a = g.ints()
            call = "(%s a (lambda (x y) (= (modulo x 5) (modulo y 5))))" % k
            eq = lambda x, y: x % 5 == y % 5
        else:
            call = "(%s a)" % k
            eq = equal
        want = []
        for y in a:
            if not any(eq(x, y) for x in want):
                want.append(y)
    A = [("a", a)]
    if base not in ("delete", "delete-duplicates"):
        call = "(%s %s a)" % (k, s)
        if base in ("partition", "span", "break"):
            call = "(%%values->list %s)" % call
    if k.endswith("!"):
        return plain(k, "(let ((a %s)) %s)" % (build(a), call), want)
    return case(k, call, want, A, log, not ordered) if log is not None else case(k, call, want, A)


def gen_search(g):
    r = g.r
    k = r.choice(["memq", "memv", "member", "member3", "assq", "assv", "assoc", "assoc3", "alist-cons", "alist-copy", "alist-delete", "alist-delete!"])
    small = lambda: g.r.choice([Sym(g.r.choice("abcd")), g.r.choice([True, False])] + ([] if k in ("memq", "assq") else [g.r.randint(-5, 5), Ch(g.r.choice("ab"))]))
    if k in ("memq", "memv", "member"):
        a = g.lst(small if k != "member" else g.item)
        x = r.choice(a) if a and r.random() < 0.6 else (small() if k != "member" else g.item())
        eq = eqv if k != "member" else equal
        i = next((i for i, y in enumerate(a) if eq(x, y)), None)
        return case(k, "(let ((t (%s %s a))) (list t (and t (eq? t (list-tail a (- (length a) (length t)))))))" % (k, build(x)), [a[i:], True] if i is not None else [False, False], [("a", a)])
    if k == "member3":
        a = g.ints()
        x = r.randint(-9, 20)
        log = []
        want = False
        for i, y in enumerate(a):
            log.append([x, y])
            if x < y:
                want = a[i:]
                break
        return case(k, "(member %d a (lambda (x y) (%%note x y) (< x y)))" % x, want, [("a", a)], log)
    al = [cons(small() if k != "assoc" else g.item(), g.item()) for _ in range(g.n())]

    def key(p):
        return p[0][0] if isinstance(p, Dot) else p[0]
    x = key(r.choice(al)) if al and r.random() < 0.6 else small()
    if k in ("assq", "assv", "assoc"):
        eq = eqv if k != "assoc" else equal
        return case(k, "(let ((t (%s %s a))) (list t (and t (memq t a) #t)))" % (k, build(x)), next(([p, True] for p in al if eq(x, key(p))), [False, False]), [("a", al)])
    if k == "assoc3":
        al = [cons(r.randint(-9, 20), g.atom()) for _ in range(g.n())]
        x = r.randint(-9, 20)
        log, want = [], False
        for p in al:
            log.append([x, key(p)])
            if x < key(p):
                want = p
                break
        return case(k, "(assoc %d a (lambda (x y) (%%note x y) (< x y)))" % x, want, [("a", al)], log)
    if k == "alist-cons":
        v = g.item()
        return case(k, "(alist-cons %s %s a)" % (build(x), build(v)), [cons(x, v)] + al, [("a", al)])
    if k == "alist-copy":
        return plain(k, "(let* ((a %s) (b (alist-copy a))) (for-each (lambda (p) (set-cdr! p 'changed)) b) (list a b))" % build(al), [al, [cons(key(p), Sym("changed")) for p in al]])
    if r.random() < 0.4:
        al = [cons(r.randint(-9, 20), g.atom()) for _ in range(g.n())]
        x = r.randint(-9, 20)
        want = [p for p in al if not x < key(p)]
        call = "(%s %d a <)" % (k, x)
    else:
        want = [p for p in al if not equal(x, key(p))]
        call = "(%s %s a)" % (k, build(x))
    return case(k, call, want, [("a", al)]) if k == "alist-delete" else plain(k, "(let ((a %s)) %s)" % (build(al), call), want)


def gen_set(g):
    """lset operations, as ordered by the reference implementation."""
    r = g.r
    eq = r.choice(["eq?", "eqv?", "equal?"])
    k = r.choice(["lset<=", "lset=", "lset-adjoin", "lset-union", "lset-intersection", "lset-difference", "lset-xor", "lset-diff+intersection"])
    small = lambda: g.r.choice([Sym(g.r.choice("abcdefg")), Sym(g.r.choice("hijk")) if eq == "eq?" else g.r.randint(0, 6)])

    def one():
        out = []
        for _ in range(g.n() % 9):
            x = small()
            if not any(eqv(x, y) for y in out):
                out.append(x)
        return out
    n = r.choice((0, 1, 2, 2, 2, 3))
    bang = r.random() < 0.3 and k not in ("lset<=", "lset=", "lset-adjoin")
    ins = lambda x, l: any(eqv(x, y) for y in l)
    ls = [one() for _ in range(n)]
    if n > 1 and r.random() < 0.4:
        ls[1] = ls[0][:]
        r.shuffle(ls[1])
        if k == "lset<=":
            ls[0] = ls[0][:len(ls[0]) // 2 + r.randint(0, 2)]
    if not ls and k not in ("lset<=", "lset=", "lset-union", "lset-xor"):
        ls = [one()]
        n = 1
    names = ["abc"[i] for i in range(n)]
    call = "(%s%s %s %s)" % (k, "!" if bang else "", eq, " ".join(names))
    A = list(zip(names, ls))
    unordered = None
    if k == "lset<=":
        want = all(all(ins(x, b) for x in a) for a, b in zip(ls, ls[1:]))
    elif k == "lset=":
        want = all(all(ins(x, b) for x in a) and all(ins(x, a) for x in b) for a, b in zip(ls, ls[1:]))
    elif k == "lset-adjoin":
        xs = [small() for _ in range(r.randint(0, 5))]
        s = ls[0][:]
        for x in xs:
            if not ins(x, s):
                s.append(x)
        call = "(lset-adjoin %s a %s)" % (eq, " ".join(map(build, xs)))
        A, unordered = [("a", ls[0])], s
    elif k == "lset-union":
        s = []
        for l in ls:
            s += [x for x in l if not ins(x, s)]
        unordered = s
    elif k == "lset-intersection":
        want = [x for x in ls[0] if all(ins(x, l) for l in ls[1:])]
    elif k == "lset-difference":
        want = [x for x in ls[0] if not any(ins(x, l) for l in ls[1:])]
    elif k == "lset-xor":
        s = []
        for l in ls:
            s = [x for x in s if not ins(x, l)] + [x for x in l if not ins(x, s)]
        unordered = s
    else:
        want = [[x for x in ls[0] if not any(ins(x, l) for l in ls[1:])], [x for x in ls[0] if any(ins(x, l) for l in ls[1:])]]
        call = "(%%values->list %s)" % call
    if unordered is not None:
        call, want = "(%%sort %s)" % call, sorted(unordered, key=show)
    if bang:
        return plain(k + "!", "(let* (%s) %s)" % (" ".join("(%s %s)" % (m, build(v)) for m, v in A), call), want)
    return case(k, call, want, A)


def gen_pred(g):
    r = g.r
    a = g.lst()
    kind = r.choice(["proper", "dotted", "circular", "lasso", "atom"])
    if kind == "proper":
        x, flags = build(a), (True, False, False)
    elif kind == "dotted":
        x, flags = build(dot(a, g.atom())), (False, False, True)
    elif kind == "atom":
        x, flags = build(g.atom()), (False, False, True)
    elif kind == "circular":
        x, flags = "(circular-list %s)" % " ".join(map(build, a or [1])), (False, True, False)
    else:
        x, flags = "(append %s (circular-list %s))" % (build(a), " ".join(map(build, g.nonempty()))), (False, True, False)
    k = r.choice(["class", "class", "list=", "not-pair"])
    if k == "class":
        return plain("predicates", "(let ((x %s)) (list (proper-list? x) (circular-list? x) (dotted-list? x) (list? x)))" % x, list(flags) + [flags[0]])
    if k == "not-pair":
        return plain("predicates", "(let ((x %s)) (list (not-pair? x) (pair? x) (null? x)))" % x,
                     [kind == "atom" or (kind in ("proper", "dotted") and not a), not (kind == "atom" or (kind in ("proper", "dotted") and not a)), kind == "proper" and not a])
    n = r.randint(0, 3)
    b = g.lst(g.small)
    ls = [b[:] for _ in range(n)]
    if n and r.random() < 0.5:
        i = r.randrange(n)
        if ls[i] and r.random() < 0.5:
            ls[i][r.randrange(len(ls[i]))] = Sym("other")
        else:
            ls[i] = ls[i] + [1] if r.random() < 0.5 else ls[i][:-1]
    return plain("list=", "(list= eqv? %s)" % " ".join(map(build, ls)), all(len(p) == len(q) and all(map(eqv, p, q)) for p, q in zip(ls, ls[1:])))


GENS = [gen_select, gen_construct, gen_map, gen_map, gen_filter, gen_search, gen_set, gen_pred]


def long_lists(ck):
    """Procedures that iterate, on long lists."""
    n = ck.n(20000, 200000)
    out = []

    def c(expr, want):
        out.append(Case("(let ((n %d)) %s)" % (n, expr), want, "long list", DEFS))
    s = n * (n - 1) // 2
    c("(apply + (iota n))", str(s))
    c("(fold + 0 (map (lambda (x) x) (iota n)))", str(s))
    c("(fold-right + 0 (iota n))", str(s))
    c("(length (append (iota n) (iota n)))", str(2 * n))
    c("(length (filter even? (iota n)))", str((n + 1) // 2))
    c("(car (reverse (iota n)))", str(n - 1))
    c("(length (list-copy (iota n)))", str(n))
    c("(let ((k 0)) (for-each (lambda (x) (set! k (+ k x))) (iota n)) k)", str(s))
    c("(car (memv (- n 1) (iota n)))", str(n - 1))
    c("(car (assv (- n 1) (map list (iota n))))", str(n - 1))
    c("(length (vector->list (list->vector (iota n))))", str(n))
    c("(list-ref (iota n) (- n 1))", str(n - 1))
    c("(equal? (iota n) (map + (iota n) (make-list n 0)))", "#t")
    c("(call-with-values (lambda () (partition even? (iota n))) (lambda (a b) (+ (length a) (length b))))", str(n))
    c("(length (list-tabulate n (lambda (x) x)))", str(n))
    c("(length (unfold (lambda (x) (= x n)) (lambda (x) x) (lambda (x) (+ x 1)) 0))", str(n))
    c("(reduce max 0 (iota n))", str(n - 1))
    c("(length (take (iota n) (- n 1)))", str(n - 1))
    c("(length (concatenate (list (iota n) (iota n))))", str(2 * n))
    c("(length (delete 3 (iota n)))", str(n - 1))
    c("(length (append-map list (iota n)))", str(n))
    c("(length (filter-map (lambda (x) x) (iota n)))", str(n))
    c("(every number? (iota n))", "#t")
    c("(any symbol? (iota n))", "#f")
    c("(count even? (iota n))", str((n + 1) // 2))
    c("(length (string->list (list->string (map (lambda (x) #\\a) (iota n)))))", str(n))
    return out


def run(ck):
    cases = []
    for i in range(ck.n(16000, 400000)):
        r = random.Random("%s/list/%d" % (ck.seed, i))
        g = G(r)
        cases.append(GENS[i % len(GENS)](g))
    ck.run_cases(cases)
    ck.run_cases(long_lists(ck), batch=4)
    ck.run_cases(reenter.cases("map", ck.n(400, 4000), ck.seed))
