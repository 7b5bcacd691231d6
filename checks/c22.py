"""Ports: a model of every port in Python follows the same sequence of operations."""
import os
import lexref as L
from vlib import Case, scm_string

TECHNIQUE = "monitored execution with a model-based oracle: random sequences of port operations are followed by a model of the ports, every result is compared, and the files that were written are inspected by the checker itself"
NOTE = ("Operations on closed ports, lengths of zero at the end of a file, ready-predicates at the end of a file, and bytes that are not UTF-8 on textual ports are out of scope. Files are regular files in a scratch directory.")
RULE = ("random sequences of up to 40 operations on up to 4 ports at a time (string, bytevector, textual and binary file ports, current ports through parameterize and with-...-file forms), files around the "
        "sizes of the buffers; distinct by program")
MIN = 700

DEFS = L.PRELUDE + r"""
(define (%c x)
  (cond ((eof-object? x) 'eof)
        ((char? x) (char->integer x))
        ((string? x) (cons 's (%codes x)))
        ((bytevector? x) (cons 'b (let loop ((i (- (bytevector-length x) 1)) (r '())) (if (< i 0) r (loop (- i 1) (cons (bytevector-u8-ref x i) r))))))
        ((boolean? x) x)
        ((exact-integer? x) (list 'n x))
        (else (%show x))))
(define (%seq thunks) (let loop ((ts thunks) (r '())) (if (null? ts) (reverse r) (let ((x ((car ts)))) (loop (cdr ts) (cons (%c x) r))))))
(define (%catch thunk) (guard (e ((file-error? e) 'file-error) ((read-error? e) 'read-error) (#t 'other-error)) (thunk)))
(define (%all p) (let loop ((r '())) (let ((c (read-char p))) (if (eof-object? c) (list->string (reverse r)) (loop (cons c r))))))
(define (%alln p n) (let loop ((r '())) (let ((s (read-string n p))) (if (eof-object? s) (apply string-append (reverse r)) (loop (cons s r))))))
(define (%lines p) (let loop ((r '())) (let ((s (read-line p))) (if (eof-object? s) (reverse r) (loop (cons s r))))))
(define (%bytes p) (let loop ((r '())) (let ((c (read-u8 p))) (if (eof-object? c) (apply bytevector (reverse r)) (loop (cons c r))))))
"""

CH = "abc xyz019()\"\\;#|'\t\n\n\n\r" + "\u00e9\u03bb\u3042\U0001f600\u07ff\u0800\uffff\U00010000\U0010ffff\u2028\x00\x7f"


def rtext(r, n=None):
    n = r.choice([0, 1, 2, 5, 12, 40]) if n is None else n
    m = r.random()
    return "".join(r.choice(CH) if m < 0.7 else chr(r.choice([r.randint(0, 127), r.randint(0x80, 0xD7FF), r.randint(0xE000, 0x10FFFF)])) for _ in range(n))


def rbytes(r, n=None):
    n = r.choice([0, 1, 2, 5, 12, 40]) if n is None else n
    return bytes(r.choice([0, 10, 13, 26, 255, 128, r.randrange(256)]) for _ in range(n))


def bv(b):
    return "(bytevector%s)" % "".join(" %d" % x for x in b)


def c(x):
    if x is None:
        return "eof"
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, str):
        return "(s%s)" % L.cps(x)
    if isinstance(x, bytes):
        return "(b%s)" % "".join(" %d" % y for y in x)
    if isinstance(x, int):
        return "(n %d)" % x
    if isinstance(x, tuple) and x[0] == "char":
        return str(x[1])
    if isinstance(x, tuple) and x[0] == "raw":
        return x[1]
    raise ValueError(x)


class In:
    def __init__(self, name, data, text, current=False):
        self.name, self.d, self.i, self.text, self.open, self.current = name, data, 0, text, True, current

    def op(self, r):
        """(expression, result) of an operation, or None if none is possible."""
        p = self.name
        rest = len(self.d) - self.i
        x = r.random()
        a = "" if self.current and r.random() < 0.7 else " " + p
        if self.text:
            if x < 0.2:
                v = None
                if rest:
                    v = ("char", ord(self.d[self.i]))
                    self.i += 1
                return "(read-char%s)" % a, v
            if x < 0.4:
                return "(peek-char%s)" % a, ("char", ord(self.d[self.i])) if rest else None
            if x < 0.55:
                k = r.choice([1, 1, 2, 3, 7, 100])
                v = self.d[self.i:self.i + k] if rest else None
                self.i += len(v or "")
                return "(read-string %d%s)" % (k, a), v
            if x < 0.6 and rest:
                return "(read-string 0%s)" % a, ""
            if x < 0.78:
                if not rest:
                    return "(read-line%s)" % a, None
                j = self.d.find("\n", self.i)
                v = self.d[self.i:] if j < 0 else self.d[self.i:j]
                self.i = len(self.d) if j < 0 else j + 1
                return "(read-line%s)" % a, v
            if x < 0.9:
                rd = L.Reader(self.d, self.i)
                try:
                    y = rd.read()
                except L.Eof:
                    self.i = len(self.d)
                    return "(read%s)" % a, None
                except (L.ReadError, L.Unknown, RecursionError):
                    return None
                if rd.fold:
                    return None
                try:
                    w = L.show(y)
                except RecursionError:
                    return None
                if isinstance(y, tuple) and y[0] in ("i", "c", "s", "u8") or y is True or y is False or "f" == (isinstance(y, tuple) and y[0]):
                    return None if not self.peekable(rd) else (self.advance(rd) or ("(%%show (read%s))" % a, None, w))
                self.i = rd.i
                return "(%%show (read%s))" % a, None, w
            if rest:
                return "(char-ready?%s)" % a, True
            return None
        if x < 0.25:
            v = None
            if rest:
                v = self.d[self.i]
                self.i += 1
            return "(read-u8%s)" % a, v
        if x < 0.45:
            return "(peek-u8%s)" % a, self.d[self.i] if rest else None
        if x < 0.65:
            k = r.choice([1, 1, 2, 3, 7, 100])
            v = bytes(self.d[self.i:self.i + k]) if rest else None
            self.i += len(v or b"")
            return "(read-bytevector %d%s)" % (k, a), v
        if x < 0.9:
            n = r.randint(1, 8)
            s = r.randint(0, n - 1)
            e = r.randint(s + 1, n)
            form = r.randint(0, 2)
            if form == 0:
                s, e = 0, n
            elif form == 1:
                e = n
            got = bytes(self.d[self.i:self.i + e - s])
            self.i += len(got)
            args = " " + p + ("" if form == 0 else " %d" % s if form == 1 else " %d %d" % (s, e))
            whole = bytes([7] * s) + got + bytes([7] * (n - s - len(got)))
            return "(let* ((v (make-bytevector %d 7)) (n (read-bytevector! v%s))) (list (%%c n) (%%c v)))" % (n, args), ("list", [len(got) if got else None, whole])
        if rest:
            return "(u8-ready?%s)" % a, True
        return None

    def peekable(self, rd):
        return True

    def advance(self, rd):
        self.i = rd.i


class Out:
    def __init__(self, name, text, kind, path=None, current=False):
        self.name, self.text, self.kind, self.path, self.open, self.current = name, text, kind, path, True, current
        self.d = "" if text else b""

    def op(self, r):
        p = self.name
        x = r.random()
        a = "" if self.current and r.random() < 0.7 else " " + p
        U = ("raw", "u")
        if self.kind == "mem" and x < 0.2:
            return "(get-output-%s %s)" % ("string" if self.text else "bytevector", p), self.d
        if x < 0.25:
            return "(begin (flush-output-port%s) 'u)" % a, U
        if self.text:
            if x < 0.4:
                ch = rtext(r, 1)
                self.d += ch
                return "(begin (write-char (integer->char %d)%s) 'u)" % (ord(ch), a), U
            if x < 0.65:
                s = rtext(r)
                form = r.randint(0, 2)
                i = r.randint(0, len(s))
                j = r.randint(i, len(s))
                t = s if form == 0 else s[i:] if form == 1 else s[i:j]
                self.d += t
                return "(begin (write-string %s%s) 'u)" % (scm_string(s), a if form == 0 else " %s %d" % (p, i) if form == 1 else " %s %d %d" % (p, i, j)), U
            if x < 0.75:
                self.d += "\n"
                return "(begin (newline%s) 'u)" % a, U
            if x < 0.85:
                s = rtext(r)
                self.d += s
                return "(begin (display %s%s) 'u)" % (scm_string(s), a), U
            v, t = r.choice([("42", "42"), ("'(a b . c)", "(a b . c)"), ("\"x\\\"y\"", '"x\\"y"'), ("#\\a", "#\\a"), ("'#(1 #t)", "#(1 #t)"), ("'()", "()"), ("-7/3", "-7/3")])
            self.d += t
            return "(begin (write %s%s) 'u)" % (v, a), U
        if x < 0.6:
            b = rbytes(r, 1)
            self.d += b
            return "(begin (write-u8 %d%s) 'u)" % (b[0], a), U
        b = rbytes(r)
        form = r.randint(0, 2)
        i = r.randint(0, len(b))
        j = r.randint(i, len(b))
        self.d += b if form == 0 else b[i:] if form == 1 else b[i:j]
        return "(begin (write-bytevector %s%s) 'u)" % (bv(b), a if form == 0 else " %s %d" % (p, i) if form == 1 else " %s %d %d" % (p, i, j)), U


def predicates(p, io, text, open_):
    f = lambda b: "#t" if b else "#f"
    e = "(list (port? %s) (input-port? %s) (output-port? %s) (textual-port? %s) (binary-port? %s) (%s-port-open? %s))" % (p, p, p, p, p, "input" if io == "in" else "output", p)
    return e, "(#t %s %s %s %s %s)" % (f(io == "in"), f(io == "out"), f(text), f(not text), f(open_))


def run(ck):
    r = ck.rng
    d = ck.scratch()
    cases = []
    count = [0]

    def fresh(data=None):
        count[0] += 1
        name = os.path.join(d, "f%d" % count[0])
        if data is not None:
            with open(name, "wb") as f:
                f.write(data)
        return name

    def show(v):
        if isinstance(v, tuple) and v[0] == "list":
            return "(l %s ())" % " ".join(shown(c(y)) for y in v[1])
        return c(v)

    def shown(t):
        """%show of a canonical answer of %c."""
        if t.startswith("("):
            parts = t[1:-1].split()
            return "(l %s ())" % " ".join(("(y %d)" % ord(q)) if q in "sbn" else "(i %s)" % q for q in parts)
        return "(y 101 111 102)" if t == "eof" else t

    def sequence():
        ports, binds, files = [], [], []
        for k in range(r.randint(1, 4)):
            n = "p%d" % k
            x = r.random()
            if x < 0.18:
                s = text_data()
                ports.append(In(n, s, True))
                binds.append("(%s (open-input-string %s))" % (n, scm_string(s)))
            elif x < 0.32:
                b = rbytes(r)
                ports.append(In(n, b, False))
                binds.append("(%s (open-input-bytevector %s))" % (n, bv(b)))
            elif x < 0.48:
                s = text_data()
                ports.append(In(n, s, True))
                binds.append("(%s (open-input-file %s))" % (n, scm_string(fresh(s.encode()))))
            elif x < 0.6:
                b = rbytes(r)
                ports.append(In(n, b, False))
                binds.append("(%s (open-binary-input-file %s))" % (n, scm_string(fresh(b))))
            elif x < 0.7:
                ports.append(Out(n, True, "mem"))
                binds.append("(%s (open-output-string))" % n)
            elif x < 0.8:
                ports.append(Out(n, False, "mem"))
                binds.append("(%s (open-output-bytevector))" % n)
            elif x < 0.9:
                path = fresh(b"old contents that are longer than the new ones" if r.random() < 0.5 else None)
                ports.append(Out(n, True, "file", path))
                binds.append("(%s (open-output-file %s))" % (n, scm_string(path)))
            else:
                path = fresh(b"old contents" if r.random() < 0.5 else None)
                ports.append(Out(n, False, "file", path))
                binds.append("(%s (open-binary-output-file %s))" % (n, scm_string(path)))
        # redirection of the current ports
        params = []
        ins = [p for p in ports if isinstance(p, In)]
        outs = [p for p in ports if isinstance(p, Out)]
        if ins and r.random() < 0.3:
            p = r.choice(ins)
            p.current = True
            params.append("(current-input-port %s)" % p.name)
        if outs and r.random() < 0.3:
            p = r.choice(outs)
            p.current = True
            params.append("(current-output-port %s)" % p.name)
        exprs, want = [], []
        for _ in range(r.randint(3, 40)):
            live = [p for p in ports if p.open]
            if r.random() < 0.04:
                p = r.choice(ports)
                e, w = predicates(p.name, "in" if isinstance(p, In) else "out", p.text, p.open)
                exprs.append("(let ((l %s)) l)" % e)
                want.append("(l %s ())" % w[1:-1])
                continue
            if live and r.random() < 0.03:
                p = r.choice(live)
                if isinstance(p, Out) and p.kind == "mem":
                    continue
                p.open = False
                exprs.append("(begin (close-%s %s) 'u)" % (r.choice(["port", "input-port" if isinstance(p, In) else "output-port"]), p.name))
                want.append("(y 117)")
                continue
            if not live:
                break
            p = r.choice(live)
            res = p.op(r)
            if res is None:
                continue
            if len(res) == 3:
                exprs.append("(list 'd %s)" % res[0])
                want.append("(l (y 100) %s ())" % reshow(res[2]))
            else:
                exprs.append(res[0])
                want.append("(y 117)" if res[1] == ("raw", "u") else show(res[1]))
        for p in ports:
            if isinstance(p, Out) and p.kind == "file":
                files.append((p.path, p.d.encode() if p.text else p.d))
                if p.open:
                    exprs.append("(begin (close-port %s) 'u)" % p.name)
                    want.append("(y 117)")
        body = "(%%seq (list %s))" % " ".join("(lambda () %s)" % e for e in exprs)
        if params:
            body = "(parameterize (%s) %s)" % (" ".join(params), body)
        want = "(" + " ".join(want) + ")"

        def judge(kind, text):
            if (kind, text) != ("V", want):
                return "expected " + want
            for path, b in files:
                with open(path, "rb") as f:
                    got = f.read()
                if got != b:
                    return "the file has %r instead of %r" % (got[:300], b[:300])
            return None
        ck.stat("port operations followed", len(exprs))
        cases.append(Case("(let* (%s) %s)" % (" ".join(binds), body), judge, "sequences of operations", DEFS))

    def text_data():
        x = r.random()
        if x < 0.5:
            return rtext(r)
        out = ""
        for _ in range(r.randint(0, 4)):
            out += L.spell(r, L.rdatum(r, r.randint(0, 2))) + L.gap(r, True)
            if r.random() < 0.3:
                out += rtext(r, 3)
        return out

    def reshow(w):
        """%show of the list structure which %show itself produced."""
        toks = w.replace("(", " ( ").replace(")", " ) ").split()
        pos = [0]

        def go():
            t = toks[pos[0]]
            pos[0] += 1
            if t == "(":
                items = []
                while toks[pos[0]] != ")":
                    items.append(go())
                pos[0] += 1
                return "()" if not items else "(l %s ())" % " ".join(items)
            if t in ("#t", "#f"):
                return t
            if t.lstrip("-").replace("/", "").isdigit():
                return "(i %s)" % t
            return "(y%s)" % L.cps(t)
        return go()

    for _ in range(ck.n(700, 40000)):
        sequence()

    # Files around the sizes of buffers
    def big():
        n = r.choice([4096, 8191, 8192, 16384, 1023, 1024, 32768]) + r.randint(-6, 6)
        unit = r.choice(["\u3042", "\U0001f600", "\u00e9", "a", "x\n", "\u3042\n"])
        pad = "".join(r.choice("ab\n") for _ in range(max(0, n - r.randint(0, 12))))
        s = pad + unit * r.randint(1, 40)
        path = fresh(s.encode())
        way = r.randint(0, 5)
        q = scm_string(path)
        total = len(s)
        sums = sum((i % 97 + 1) * ord(ch) for i, ch in enumerate(s)) % 1000003
        fold = "(let loop ((i 0) (a 0) (l (string->list s))) (if (null? l) (list (string-length s) a) (loop (+ i 1) (modulo (+ a (* (+ (modulo i 97) 1) (char->integer (car l)))) 1000003) (cdr l))))"
        read = ["(call-with-input-file %s %%all)" % q,
                "(call-with-input-file %s (lambda (p) (%%alln p %d)))" % (q, r.choice([1, 7, 100, 4096, 8192, 100000])),
                "(with-input-from-file %s (lambda () (let loop ((r '())) (let* ((k (peek-char)) (k2 (peek-char)) (x (read-char))) (if (eof-object? x) (list->string (reverse r)) (loop (cons (if (and (eqv? k x) (eqv? k2 x)) x #\\!) r)))))))" % q,
                "(let* ((p (open-input-file %s)) (ls (%%lines p))) (close-port p) (apply string-append (map (lambda (l) (string-append l \"\\n\")) ls)))" % q,
                "(utf8->string (let* ((p (open-binary-input-file %s)) (b (%%bytes p))) (close-port p) b))" % q,
                "(utf8->string (call-with-port (open-binary-input-file %s) (lambda (p) (let loop ((r '())) (let ((b (read-bytevector %d p))) (if (eof-object? b) (apply bytevector-append (reverse r)) (loop (cons b r))))))))" % (q, r.choice([3, 1000, 4096, 8192, 99999]))][way]
        if way == 3 and not s.endswith("\n"):
            s += "\n"
            total = len(s)
            sums = sum((i % 97 + 1) * ord(ch) for i, ch in enumerate(s)) % 1000003
        cases.append(Case("(let ((s %s)) %s)" % (read, fold), "(%d %d)" % (total, sums), "large files", DEFS))

    for _ in range(ck.n(50, 1500)):
        big()

    # Writing, by every form, then reading by every form
    def rewrite():
        path = fresh(b"something longer than what follows, to be truncated" * 3 if r.random() < 0.6 else None)
        parts = [rtext(r) for _ in range(r.randint(1, 5))]
        if r.random() < 0.2:
            parts.append(rtext(r, 9000))
        s = "".join(parts)
        q = scm_string(path)
        ws = lambda p: " ".join("(write-string %s%s)" % (scm_string(x), p) for x in parts)
        way = r.randint(0, 5)
        write = ["(call-with-output-file %s (lambda (p) %s 'done))" % (q, ws(" p")),
                 "(with-output-to-file %s (lambda () %s 'done))" % (q, ws("")),
                 "(let ((p (open-output-file %s))) %s (close-port p) 'done)" % (q, ws(" p")),
                 "(let ((p (open-output-file %s))) (parameterize ((current-output-port p)) %s) (close-output-port p) 'done)" % (q, ws("")),
                 "(call-with-port (open-output-file %s) (lambda (p) %s 'done))" % (q, ws(" p")),
                 "(call-with-port (open-binary-output-file %s) (lambda (p) %s 'done))" % (q, " ".join("(write-bytevector (string->utf8 %s) p)" % scm_string(x) for x in parts))][way]
        read = r.choice(["(call-with-input-file %s %%all)", "(with-input-from-file %s (lambda () (%%all (current-input-port))))", "(call-with-port (open-input-file %s) %%all)",
                         "(let ((b (call-with-port (open-binary-input-file %s) %%bytes))) (utf8->string b))"]) % q

        def judge(kind, text):
            want = "(done %s #t)" % c(s)
            if (kind, text) != ("V", want):
                return "expected " + want
            with open(path, "rb") as f:
                got = f.read()
            return None if got == s.encode() else "the file has %r" % got[:300]
        cases.append(Case("(let* ((a %s) (b (%%c %s))) (list a b (file-exists? %s)))" % (write, read, q), judge, "written and read back", DEFS))

    for _ in range(ck.n(150, 6000)):
        rewrite()

    # The extent of redirection, also when left by an escape or an error
    def extent():
        path, path2 = fresh(), fresh(b"input of the file\nsecond")
        q, q2 = scm_string(path), scm_string(path2)
        leave = r.choice(["'ok", "(k 'ok)", "(raise 'ok)", "(begin (car (list 1)) 'ok)", "(error \"x\")"])
        form = r.choice(["(with-output-to-file %s (lambda () (write-string \"in\") %s))", "(parameterize ((current-output-port (open-output-file %s))) (write-string \"in\") (flush-output-port) %s)"]) % (q, leave)
        e = ("(let ((o (open-output-string)) (i (open-input-string \"abc\"))) (parameterize ((current-output-port o) (current-input-port i))"
             " (let* ((c1 (read-char)) (w (begin (write-string \"1\") (guard (e (#t 'ok)) (call/cc (lambda (k) %s))))) (l (guard (e (#t 'ok)) (call/cc (lambda (k) (with-input-from-file %s (lambda () (let ((x (read-line))) (if (pair? x) %s x)))))))) (c2 (read-char)))"
             " (write-string \"2\") (list w l c1 c2 (get-output-string o)))))" % (form, q2, leave))
        cases.append(Case(e, '(ok "input of the file" #\\a #\\b "12")', "extent of redirection", DEFS))

    for _ in range(ck.n(30, 600)):
        extent()

    # Missing files, deletion, closing, values through call-with-port
    for k in range(ck.n(40, 400)):
        missing = os.path.join(d, "missing%d" % k)
        q = scm_string(missing)
        op = r.choice(["(open-input-file %s)", "(open-binary-input-file %s)", "(call-with-input-file %s read-char)", "(with-input-from-file %s read-char)", "(delete-file %s)",
                       "(open-output-file (string-append %s \"/x\"))", "(open-binary-output-file (string-append %s \"/x\"))", "(load %s)"]) % q
        cases.append(Case("(list (file-exists? %s) (%%catch (lambda () %s)) (file-exists? %s))" % (q, op, q), "(#f file-error #f)", "missing files", DEFS))
        p = scm_string(fresh())
        cases.append(Case("(let* ((w (call-with-output-file %s (lambda (p) (write 'abc p)))) (a (file-exists? %s)) (b (begin (delete-file %s) (file-exists? %s))) (c (%%catch (lambda () (open-input-file %s))))) (list a b c))" % (p, p, p, p, p), "(#t #f file-error)", "deletion", DEFS))
        mk = r.choice(["(open-input-string \"ab\")", "(open-input-bytevector (bytevector 1 2))", "(open-output-string)", "(open-output-bytevector)", "(open-input-file %s)" % scm_string(fresh(b"xy")), "(open-output-file %s)" % scm_string(fresh()),
                       "(open-binary-input-file %s)" % scm_string(fresh(b"xy")), "(open-binary-output-file %s)" % scm_string(fresh())])
        pr = "(if (input-port? p) (input-port-open? p) (output-port-open? p))"
        cases.append(Case("(let* ((p %s) (a %s)) (call-with-values (lambda () (call-with-port p (lambda (q) (values (eq? p q) 2 'three)))) (lambda r (let ((b %s)) (close-port p) (append (list a b %s) r)))))" % (mk, pr, pr, pr), "(#t #f #f #t 2 three)", "call-with-port", DEFS))
        cases.append(Case("(let ((p (open-output-string)) (q (open-output-bytevector))) (list (get-output-string p) (bytevector-length (get-output-bytevector q)) (eof-object? (eof-object)) (eof-object? (read-char (open-input-string \"\"))) (eof-object? (read-u8 (open-input-bytevector (bytevector)))) (eof-object? (read-line (open-input-string \"\"))) (eof-object? 'eof)))",
                          '("" 0 #t #t #t #t #f)', "empty ports", DEFS))

    r.shuffle(cases)
    cut = len(cases) // 4
    ck.run_cases(cases[cut:], batch=25, timeout=20)
    ck.run_cases(cases[:cut], variant="san", batch=25, timeout=60)
    ck.run_known()
