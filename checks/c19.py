"""Strings and characters against Python's strings and Unicode character database."""
import random, unicodedata
import reenter
from vlib import Case

TECHNIQUE = "monitored execution: a complete sweep over the scalar values against an independent Unicode database (Python's unicodedata), and generated sequences of string operations with a differential oracle (Python lists of code points), every live string being inspected after the sequence"
NOTE = ("The sweep is complete for the code points assigned in Unicode 15.0 (quick: all below U+32400 and every sixteenth block above; thorough: all), by general category and simple case mappings; "
        "char-foldcase and the -ci procedures are specified through simple downcasing, as the implementation documents. The string operations held on the generated sequences only: up to four strings "
        "of at most 20 characters (a stratum of 3000). Literal constants are not mutated; out-of-range ranges that are not checked are not generated.")
RULE = ("blocks of 2048 code points with their classification, case mappings, digit values and UTF-8 encodings; sequences of 3 to 12 string operations (constructors, accessors, mutation, overlapping copies, conversions, comparisons, "
        "maps); n-ary comparisons; checked index errors; distinct by text")
MIN = 2000

DEFS = r"""
(define (%show x)
  (cond ((char? x) (list 'c (char->integer x)))
        ((string? x) (cons 's (map char->integer (string->list x))))
        ((vector? x) (cons* 'v (map %show (vector->list x))))
        ((bytevector? x) (cons 'u8 (let loop ((i (- (bytevector-length x) 1)) (r '())) (if (< i 0) r (loop (- i 1) (cons (bytevector-u8-ref x i) r))))))
        ((pair? x) (cons (%show (car x)) (%show (cdr x))))
        (else x)))
(define %log '())
(define (%note . xs) (set! %log (cons xs %log)))
(define (%classes from to skip)
  (let loop ((i from) (last #f) (r '()))
    (if (= i to)
        (reverse r)
        (let* ((c (integer->char i))
               (s (+ (if (char-alphabetic? c) 1 0) (if (char-numeric? c) 2 0) (if (char-whitespace? c) 4 0)
                     (if (char-upper-case? c) 8 0) (if (char-lower-case? c) 16 0))))
          (if (eqv? s last)
              (loop (+ i 1) s r)
              (loop (+ i 1) s (cons (list i s) r)))))))
(define (%mappings from to)
  (let loop ((i (- to 1)) (r '()))
    (if (< i from)
        r
        (let* ((c (integer->char i))
               (u (char->integer (char-upcase c)))
               (d (char->integer (char-downcase c)))
               (v (digit-value c)))
          (loop (- i 1)
                (if (and (= u i) (= d i) (not v)) r (cons (list i u d v) r)))))))
(define (%encoding from to)
  (let loop ((i from) (bad '()) (sum 0))
    (if (= i to)
        (list (reverse bad) sum)
        (let* ((s (string (integer->char i)))
               (b (string->utf8 s))
               (t (utf8->string b))
               (n (bytevector-length b))
               (sum (modulo (+ (* sum 31) (bytevector-u8-ref b 0) (* 7 (bytevector-u8-ref b (- n 1))) (* 3 (bytevector-u8-ref b (quotient n 2))) n) 1000000007)))
          (loop (+ i 1)
                (if (and (string=? s t) (= 1 (string-length t)) (= i (char->integer (string-ref t 0))) (eqv? (string-ref s 0) (string-ref t 0))
                         (string=? s (symbol->string (string->symbol s)))
                         (char=? (integer->char i) (string-ref s 0)))
                    bad
                    (cons i bad))
                sum)))))
"""


def simple_upper(c):
    ch = chr(c)
    u = ch.upper()
    if len(u) == 1:
        return ord(u)
    t = ch.title()
    return ord(t) if len(t) == 1 else c


def simple_lower(c):
    if c == 0x130:
        return 0x69
    l = chr(c).lower()
    return ord(l) if len(l) == 1 else c


WHITE = set(range(9, 14)) | {0x85}


def classes(c):
    k = unicodedata.category(chr(c))
    return ((1 if k[0] == "L" else 0) + (2 if k == "Nd" else 0) + (4 if k[0] == "Z" or c in WHITE else 0)
            + (8 if k == "Lu" else 0) + (16 if k == "Ll" else 0))


def assigned(c):
    return unicodedata.category(chr(c)) != "Cn"


def parse(text):
    """A list of lists of integers and #f."""
    toks = text.replace("(", " ( ").replace(")", " ) ").split()
    stack = [[]]
    for t in toks:
        if t == "(":
            stack.append([])
        elif t == ")":
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(int(t) if t.lstrip("-").isdigit() else t)
    return stack[0][0]


def sweep_classes(a, b):
    def want(kind, text):
        if kind != "V":
            return "classification failed"
        runs = parse(text)
        k = -1
        for c in range(a, b):
            while k + 1 < len(runs) and runs[k + 1][0] <= c:
                k += 1
            if assigned(c) and runs[k][1] != classes(c):
                return "U+%04X (%s): classes %d, wanted %d (alphabetic 1, numeric 2, whitespace 4, upper 8, lower 16)" % (c, unicodedata.category(chr(c)), runs[k][1], classes(c))
    return Case("(%%classes %d %d '())" % (a, b), want, "classification", DEFS)


def sweep_mappings(a, b):
    def want(kind, text):
        if kind != "V":
            return "case mapping failed"
        got = {r[0]: r[1:] for r in parse(text)}
        for c in range(a, b):
            if not assigned(c):
                continue
            d = unicodedata.decimal(chr(c), None)
            w = [simple_upper(c), simple_lower(c), "#f" if d is None else d]
            g = got.get(c, [c, c, "#f"])
            if g != w:
                return "U+%04X: upcase, downcase and digit value %s, wanted %s" % (c, g, w)
    return Case("(%%mappings %d %d)" % (a, b), want, "case mapping and digit value", DEFS)


def sweep_encoding(a, b):
    s = 0
    for c in range(a, b):
        e = chr(c).encode()
        n = len(e)
        s = (s * 31 + e[0] + 7 * e[n - 1] + 3 * e[n // 2] + n) % 1000000007
    return Case("(%%encoding %d %d)" % (a, b), "(() %d)" % s, "UTF-8 and symbols", DEFS)


BLOCK = 2048


def blocks(full):
    for a in range(0, 0x110000, BLOCK):
        if 0xD800 <= a < 0xE000:
            continue
        if full or a < 0x32400 or a // BLOCK % 16 == 0 or a >= 0x10F000:
            yield a, min(a + BLOCK, 0xD800 if a < 0xD800 else 0x110000)


# ---------------------------------------------------------------- strings
ALPHA = ["a", "b", "c", "A", "B", "Z", "z", "0", "9", " ", "\n", "\t", "\"", "\\", "|", ";", "\x00", "\x7f", "\u00e9", "\u00c9", "\u00df", "\u03bb", "\u039b", "\u20ac",
         "\u07ff", "\u0800", "\uffff", "\ue000", "\ud7ff", "\U00010000", "\U0001f600", "\U00010400", "\U00010428", "\U0010ffff", "\u4e2d", "\u0301"]
FOLD = [c for c in ALPHA]


def lit(s):
    o = []
    for ch in s:
        c = ord(ch)
        o.append("\\" + ch if ch in '"\\' else ch if 32 <= c < 127 else "\\x%x;" % c)
    return '"' + "".join(o) + '"'


def chx(c):
    return "(integer->char %d)" % ord(c) if not ("a" <= c <= "z") else "#\\" + c


class Ch(str):
    pass


class Str(list):
    pass


class Vec(list):
    pass


def out(x):
    if isinstance(x, Ch):
        return "(c %d)" % ord(x)
    if isinstance(x, bool):
        return "#t" if x else "#f"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Str):
        return "(s%s)" % "".join(" %d" % ord(c) for c in x)
    if isinstance(x, bytes):
        return "(u8%s)" % "".join(" %d" % c for c in x)
    if isinstance(x, Vec):
        return "(v%s)" % "".join(" " + out(c) for c in x)
    if isinstance(x, list):
        return "(" + " ".join(map(out, x)) + ")"
    raise ValueError(repr(x))


def bounds(r, a, b, n):
    if b == n:
        if a == 0 and r.random() < 0.5:
            return ""
        if r.random() < 0.5:
            return " %d" % a
    return " %d %d" % (a, b)


def low(s):
    return [simple_lower(ord(c)) for c in s]


OPS = {"=?": lambda a, b: a == b, "<?": lambda a, b: a < b, ">?": lambda a, b: a > b, "<=?": lambda a, b: a <= b, ">=?": lambda a, b: a >= b}


def chain(op, xs):
    return all(OPS[op](a, b) for a, b in zip(xs, xs[1:]))


def seq(i, seed, big=0):
    r = random.Random("%s/str/%d/%d" % (seed, i, big))
    strs, prog = [], []

    def chars(n=None):
        k = r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 20)]) if n is None else n
        if r.random() < 0.4:
            return r.choices("abAB", k=k)
        return [r.choice(ALPHA) if r.random() < 0.8 else chr(r.choice([r.randint(0, 0xd7ff), r.randint(0xe000, 0x10ffff)])) for _ in range(k)]

    def rng(n):
        a = r.randint(0, n)
        return a, r.randint(a, n)

    def fresh(expr, items):
        strs.append(Str(items))
        prog.append(("def", "s%d" % (len(strs) - 1), expr))

    def res(expr, v):
        prog.append(("res", expr, v))

    def either(expr, items):
        if len(strs) < 5 and r.random() < 0.6 and len(items) < 10000:
            fresh(expr, items)
        else:
            res(expr, Str(items))

    def construct():
        x = r.random()
        cs = chars(big or None)
        if big and r.random() < 0.5:
            c = r.choice(ALPHA)
            fresh("(make-string %d %s)" % (big, chx(c)), [c] * big)
        elif x < 0.3 and not big:
            fresh("(string%s)" % "".join(" " + chx(c) for c in cs), cs)
        elif x < 0.6:
            fresh("(string-copy %s)" % lit(cs), cs)
        elif x < 0.7:
            c = r.choice(ALPHA)
            n = r.randint(0, 15)
            fresh("(make-string %d %s)" % (n, chx(c)), [c] * n)
        elif x < 0.8:
            fresh("(list->string (list%s))" % "".join(" " + chx(c) for c in cs), cs)
        elif x < 0.9:
            a, b = rng(len(cs))
            fresh("(vector->string (vector%s)%s)" % ("".join(" " + chx(c) for c in cs), bounds(r, a, b, len(cs))), cs[a:b])
        else:
            bs = "".join(cs).encode()
            fresh("(utf8->string (bytevector%s))" % "".join(" %d" % e for e in bs), cs)

    for _ in range(r.randint(1, 3)):
        construct()
    for _ in range(r.randint(3, 12) if not big else 4):
        k = r.randrange(len(strs))
        s = strs[k]
        nm = "s%d" % k
        n = len(s)
        x = r.random()
        if x < 0.18:
            j = r.randrange(len(strs)) if r.random() < 0.5 else k
            w = strs[j]
            a, b = rng(len(w))
            b = min(b, a + n)
            at = r.randint(0, n - (b - a))
            s[at:at + b - a] = w[a:b]
            res("(begin (string-copy! %s %d s%d%s) 0)" % (nm, at, j, bounds(r, a, b, len(w))), 0)
        elif x < 0.26:
            if n:
                p = r.choice([0, n - 1, r.randrange(n)])
                c = r.choice(ALPHA)
                s[p] = c
                res("(begin (string-set! %s %d %s) 0)" % (nm, p, chx(c)), 0)
        elif x < 0.32:
            if n:
                p = r.choice([0, n - 1, r.randrange(n)])
                res("(string-ref %s %d)" % (nm, p), Ch(s[p]))
        elif x < 0.35:
            res("(string-length %s)" % nm, n)
        elif x < 0.42:
            a, b = rng(n)
            if r.random() < 0.4:
                either("(substring %s %d %d)" % (nm, a, b), s[a:b])
            else:
                either("(string-copy %s%s)" % (nm, bounds(r, a, b, n)), s[a:b])
        elif x < 0.48:
            js = [r.randrange(len(strs)) for _ in range(r.randint(0, 3))]
            either("(string-append%s)" % "".join(" s%d" % j for j in js), [c for j in js for c in strs[j]])
        elif x < 0.53:
            a, b = rng(n)
            res("(string->list %s%s)" % (nm, bounds(r, a, b, n)), [Ch(c) for c in s[a:b]])
        elif x < 0.57:
            a, b = rng(n)
            res("(string->vector %s%s)" % (nm, bounds(r, a, b, n)), Vec(Ch(c) for c in s[a:b]))
        elif x < 0.62:
            a, b = rng(n)
            res("(string->utf8 %s%s)" % (nm, bounds(r, a, b, n)), "".join(s[a:b]).encode())
        elif x < 0.66:
            a, b = rng(n)
            c = r.choice(ALPHA)
            s[a:b] = [c] * (b - a)
            res("(begin (string-fill! %s %s%s) 0)" % (nm, chx(c), bounds(r, a, b, n)), 0)
        elif x < 0.74:
            js = [r.randrange(len(strs)) for _ in range(r.randint(1, 3))]
            op = r.choice(list(OPS))
            if r.random() < 0.5:
                res("(string%s %s %s)" % (op, nm, " ".join("s%d" % j for j in js)), chain(op, [[ord(c) for c in strs[j]] for j in [k] + js]))
            else:
                res("(string-ci%s %s %s)" % (op, nm, " ".join("s%d" % j for j in js)), chain(op, [low(strs[j]) for j in [k] + js]))
        elif x < 0.78:
            res("(string->symbol %s)" % "(symbol->string (string->symbol %s))" % nm if False else "(symbol->string (string->symbol %s))" % nm, Str(s))
        elif x < 0.82:
            j = r.randrange(len(strs))
            res("(eq? (string->symbol %s) (string->symbol s%d))" % (nm, j), s == strs[j])
        elif x < 0.87:
            q = r.random()
            if q < 0.3:
                either("(string-upcase %s)" % nm, [chr(simple_upper(ord(c))) for c in s])
            elif q < 0.6:
                either("(%s %s)" % (r.choice(["string-downcase", "string-foldcase"]), nm), [chr(simple_lower(ord(c))) for c in s])
            elif q < 0.8:
                either("(string-map char-upcase %s)" % nm, [chr(simple_upper(ord(c))) for c in s])
            else:
                j = r.randrange(len(strs))
                either("(string-map (lambda (x y) (if (char<? x y) x y)) %s s%d)" % (nm, j), [min(p, q) for p, q in zip(s, strs[j])])
        elif x < 0.92:
            j = r.randrange(len(strs))
            if r.random() < 0.5:
                res("(begin (set! %%log '()) (string-for-each (lambda (x y) (%%note x y)) %s s%d) (reverse %%log))" % (nm, j), [[Ch(p), Ch(q)] for p, q in zip(s, strs[j])])
            else:
                res("(begin (set! %%log '()) (string-for-each %%note %s) (reverse %%log))" % nm, [[Ch(p)] for p in s])
        elif x < 0.95:
            # writing to a port and reading back characters is the identity
            res("(let ((p (open-output-string))) (write-string %s p) (get-output-string p))" % nm, Str(s))
        elif x < 0.98:
            res("(let ((p (open-input-string %s))) (let loop ((c (read-char p)) (r '())) (if (eof-object? c) (reverse r) (loop (read-char p) (cons c r)))))" % nm, [Ch(c) for c in s])
        else:
            j = r.randrange(len(strs))
            res("(equal? %s s%d)" % (nm, j), s == strs[j])
    expr, closing, vals, k = "", "", [], 0
    for p in prog:
        if p[0] == "def":
            expr += "(let ((%s %s)) " % (p[1], p[2])
        else:
            expr += "(let ((r%d (%%show %s))) " % (k, p[1])
            vals.append(out(p[2]))
            k += 1
        closing += ")"
    expr += "(list %s)" % " ".join(["r%d" % i for i in range(k)] + ["(%%show s%d)" % i for i in range(len(strs))])
    return Case(expr + closing, "(%s)" % " ".join(vals + [out(s) for s in strs]), "string operations" + (" (long)" if big else ""), DEFS)


def comparisons(n, seed):
    out_ = []
    for i in range(n):
        r = random.Random("%s/cmp/%d" % (seed, i))
        op = r.choice(list(OPS))
        k = r.randint(1, 5)
        if r.random() < 0.5:
            pool = r.sample(ALPHA, 3)
            pool += [c.upper() for c in pool if len(c.upper()) == 1] + [c.lower() for c in pool if len(c.lower()) == 1]
            xs = [r.choice(pool) for _ in range(k)]
            if r.random() < 0.5:
                xs.sort(reverse=op[0] == ">")
            if r.random() < 0.5:
                out_.append(Case("(char%s %s)" % (op, " ".join(map(chx, xs))), "#t" if chain(op, [ord(c) for c in xs]) else "#f", "character comparison"))
            else:
                out_.append(Case("(char-ci%s %s)" % (op, " ".join(map(chx, xs))), "#t" if chain(op, [simple_lower(ord(c)) for c in xs]) else "#f", "character comparison"))
        else:
            base = "".join(r.choices(r.sample(ALPHA, 2), k=r.randint(0, 6)))
            xs = []
            for _ in range(k):
                s = list(base[:r.randint(0, len(base))] if r.random() < 0.4 else base)
                if s and r.random() < 0.5:
                    s[r.randrange(len(s))] = r.choice(ALPHA)
                if r.random() < 0.4:
                    s = [chr(simple_upper(ord(c))) if r.random() < 0.5 else c for c in s]
                if r.random() < 0.2:
                    s.append(r.choice(ALPHA))
                xs.append("".join(s))
            if r.random() < 0.5:
                xs.sort(reverse=op[0] == ">")
            if r.random() < 0.5:
                out_.append(Case("(string%s %s)" % (op, " ".join(map(lit, xs))), "#t" if chain(op, [[ord(c) for c in s] for s in xs]) else "#f", "string comparison"))
            else:
                out_.append(Case("(string-ci%s %s)" % (op, " ".join(map(lit, xs))), "#t" if chain(op, [low(s) for s in xs]) else "#f", "string comparison"))
    return out_


def errors(n, seed):
    """Indexes the implementation checks."""
    out_ = []

    def want(kind, text):
        return None if (kind, text) == ("V", "caught") else "an invalid index of string-ref and string-set! is an error that can be caught"
    for i in range(n):
        r = random.Random("%s/serr/%d" % (seed, i))
        s = r.choices(ALPHA, k=r.randint(0, 6))
        p = r.choice([len(s), len(s) + 1, -1, len(s) + r.randint(0, 1000), 2**31, 2**62, -2**31])
        e = ("(string-ref %s %d)" % (lit(s), p)) if r.random() < 0.5 else "(string-set! (string-copy %s) %d #\\a)" % (lit(s), p)
        out_.append(Case("(call/cc (lambda (k) (with-exception-handler (lambda (e) (k (if (error-object? e) 'caught 'other))) (lambda () %s 'missed))))" % e, want, "index errors"))
    return out_


def run(ck):
    for a, b in blocks(not ck.quick):
        ck.stat("code points swept", b - a)
    cs = []
    for a, b in blocks(not ck.quick):
        cs += [sweep_classes(a, b), sweep_mappings(a, b), sweep_encoding(a, b)]
    ck.run_cases(cs, batch=12, timeout=60)
    ck.run_cases([seq(i, ck.seed) for i in range(ck.n(10000, 200000))])
    ck.run_cases([seq(i, ck.seed, ck.n(300, 3000)) for i in range(ck.n(40, 800))], batch=4)
    ck.run_cases(comparisons(ck.n(6000, 100000), ck.seed), batch=100)
    ck.run_cases(errors(ck.n(300, 3000), ck.seed), batch=50)
    ck.run_cases(reenter.cases("string-map", ck.n(300, 3000), ck.seed))
