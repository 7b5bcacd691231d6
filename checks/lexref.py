"""A reference reader for the external representations of R7RS (and the
extensions of this implementation that are not in doubt), data, their canonical
text, and generators of data and of spellings of data.

Data: bool; None for the empty list; ('i', int) ('q', Fraction) ('f', float) ('z', re, im)
('c', codepoint) ('s', str) ('y', str); Pair; Vec; ('u8' ..., [numbers]).
"""
import re
from fractions import Fraction


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, car, cdr):
        self.car, self.cdr = car, cdr


class Vec:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class ReadError(Exception):
    pass


class Unknown(Exception):
    """Outside of what this reference reader claims to know."""


class Eof(Exception):
    pass


WS = " \t\n\r\f\v"
DELIM = set(WS + '()";|' + "'" + "`,")
NAMES = {"alarm": 7, "backspace": 8, "delete": 127, "escape": 27, "newline": 10, "null": 0, "return": 13, "space": 32, "tab": 9}
HV = {"u8": (0, 255), "s8": (-128, 127), "u16": (0, 2**16 - 1), "s16": (-2**15, 2**15 - 1), "u32": (0, 2**32 - 1), "s32": (-2**31, 2**31 - 1),
      "u64": (0, 2**64 - 1), "s64": (-2**63, 2**63 - 1), "f32": None, "f64": None}

INT = re.compile(r"[+-]?[0-9]+\Z")
RAT = re.compile(r"[+-]?[0-9]+/[0-9]+\Z")
DEC = re.compile(r"[+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:e[+-]?[0-9]+)?\Z", re.I)
INITIAL = re.compile(r"[A-Za-z!$%&*/:<=>?^_~\u0080-\U0010ffff][A-Za-z0-9!$%&*/:<=>?^_~+\-.@\u0080-\U0010ffff]*\Z")
PECULIAR = re.compile(r"(?:[+-]|\.\.\.|->[A-Za-z0-9!$%&*/:<=>?^_~+\-.@]*|[+-][!$%&*/:<=>?^_~+\-@][A-Za-z0-9!$%&*/:<=>?^_~+\-.@]*|1\+|1-|-1\+|\+\.\.\.)\Z")


def number(t, radix=10):
    if radix != 10:
        m = re.match(r"([+-]?[0-9a-fA-F]+)(?:/([0-9a-fA-F]+))?\Z", t)
        if not m:
            raise Unknown
        try:
            n, d = int(m.group(1), radix), int(m.group(2), radix) if m.group(2) else 1
        except ValueError:
            raise Unknown
        if d == 0:
            raise Unknown
        q = Fraction(n, d)
        return ("i", q.numerator) if q.denominator == 1 else ("q", q)
    if INT.match(t):
        return ("i", int(t))
    if RAT.match(t):
        n, d = t.split("/")
        if int(d) == 0:
            raise Unknown
        q = Fraction(int(n), int(d))
        return ("i", q.numerator) if q.denominator == 1 else ("q", q)
    if DEC.match(t):
        return ("f", float(t))
    if t == "+inf.0":
        return ("f", float("inf"))
    if t == "-inf.0":
        return ("f", float("-inf"))
    if t in ("+nan.0", "-nan.0"):
        return ("f", float("nan"))
    return None


class Reader:
    def __init__(self, text, i=0, fold=False):
        self.t, self.i, self.fold = text, i, fold
        self.labels = {}

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ""

    def skip(self):
        """White space and comments. False at the end."""
        while True:
            c = self.peek()
            if c == "":
                return False
            if c in WS:
                self.i += 1
            elif c == ";":
                while self.peek() not in ("", "\n"):
                    if self.peek() == "\r":
                        raise Unknown
                    self.i += 1
            elif c == "#" and self.peek(1) == "|":
                self.i += 2
                n = 1
                while n:
                    if self.peek() == "":
                        raise ReadError
                    if self.peek() == "#" and self.peek(1) == "|":
                        n += 1
                        self.i += 2
                    elif self.peek() == "|" and self.peek(1) == "#":
                        n -= 1
                        self.i += 2
                    else:
                        self.i += 1
            elif c == "#" and self.peek(1) == ";":
                self.i += 2
                self.datum()
            elif c == "#" and self.peek(1) == "!":
                m = re.compile(r"#!(no-)?fold-case(?=[\s()\";]|\Z)").match(self.t, self.i)
                if not m:
                    raise Unknown
                self.fold = not m.group(1)
                self.i = m.end()
            else:
                return True

    def read(self):
        """The next datum; raises Eof, ReadError or Unknown."""
        if not self.skip():
            raise Eof
        self.labels = {}
        x = self.datum()
        return x

    def datum(self):
        if not self.skip():
            raise ReadError
        c = self.peek()
        if c == "(":
            self.i += 1
            return self.rest()
        if c == ")":
            self.i += 1
            raise ReadError
        if c in "[]{}":
            self.i += 1
            raise ReadError
        if c == '"':
            self.i += 1
            return ("s", self.quoted('"'))
        if c == "|":
            self.i += 1
            s = self.quoted("|")
            if self.peek() and self.peek() not in DELIM:
                raise Unknown
            return ("y", s)
        if c in "'`,":
            self.i += 1
            n = {"'": "quote", "`": "quasiquote", ",": "unquote"}[c]
            if c == "," and self.peek() == "@":
                self.i += 1
                n = "unquote-splicing"
            return Pair(("y", n), Pair(self.datum(), None))
        if c == "#":
            return self.hash()
        return self.token_datum()

    def token(self):
        j = self.i
        while self.peek() and self.peek() not in DELIM:
            if self.peek() in "[]{}" or self.peek() == "#" and j != self.i:
                raise Unknown
            self.i += 1
        if self.peek() and self.peek() in "|'`,":
            raise Unknown
        return self.t[j:self.i]

    def token_datum(self):
        t = self.token()
        if t == ".":
            raise ReadError
        if self.fold:
            if any(ord(c) > 127 for c in t):
                raise Unknown
            t = t.lower()
        n = number(t)
        if n is not None:
            return n
        if INITIAL.match(t) or PECULIAR.match(t):
            if re.match(r"[+-](i|inf|nan)", t, re.I) or any(ord(ch) > 127 and not (ch.isalpha() or 0x1F300 <= ord(ch) <= 0x1F6FF) for ch in t):
                raise Unknown
            return ("y", t)
        raise Unknown

    def rest(self):
        items = []
        tail = None
        while True:
            if not self.skip():
                raise ReadError
            c = self.peek()
            if c == ")":
                self.i += 1
                break
            if c == "." and (self.peek(1) == "" or self.peek(1) in DELIM):
                self.i += 1
                if not items:
                    raise Unknown
                tail = self.datum()
                if not self.skip():
                    raise ReadError
                if self.peek() != ")":
                    # more than one datum after the dot
                    self.datum()
                    raise ReadError
                self.i += 1
                break
            items.append(self.datum())
        for x in reversed(items):
            tail = Pair(x, tail)
        return tail

    def quoted(self, q):
        out = []
        while True:
            c = self.peek()
            if c == "":
                raise ReadError
            self.i += 1
            if c == q:
                return "".join(out)
            if c == "\\":
                e = self.peek()
                if e == "":
                    raise ReadError
                self.i += 1
                if e in "abtnr":
                    out.append({"a": "\a", "b": "\b", "t": "\t", "n": "\n", "r": "\r"}[e])
                elif e in '"\\|':
                    out.append(e)
                elif e == "x":
                    m = re.compile(r"([0-9a-fA-F]{1,8});").match(self.t, self.i)
                    if not m:
                        # no semicolon at all, or something that is no digit before it
                        raise ReadError
                    v = int(m.group(1), 16)
                    if v > 0x10FFFF or 0xD800 <= v < 0xE000:
                        raise Unknown
                    out.append(chr(v))
                    self.i = m.end()
                elif e == "\n":
                    m = re.compile(r"[ \t]*").match(self.t, self.i)
                    self.i = m.end()
                    if self.peek() and self.peek() in "\n\r\f\v":
                        raise Unknown
                else:
                    raise Unknown
            else:
                out.append(c)

    def hash(self):
        c = self.peek(1)
        if c == "":
            self.i += 1
            raise ReadError
        if c == "(":
            self.i += 2
            x = self.rest()
            items = []
            while isinstance(x, Pair):
                items.append(x.car)
                x = x.cdr
            if x is not None:
                raise Unknown
            return Vec(items)
        if c == '"':
            self.i += 2
            return ("y", self.quoted('"'))
        if c == "\\":
            self.i += 2
            if self.peek() == "":
                raise ReadError
            ch = self.peek()
            self.i += 1
            j = self.i
            while self.peek() and self.peek() not in DELIM:
                if self.peek() in "[]{}#":
                    raise Unknown
                self.i += 1
            if self.peek() and self.peek() in "|'`,":
                raise Unknown
            name = self.t[j:self.i]
            if not name:
                return ("c", ord(ch))
            if ch == "x" and re.match(r"[0-9a-fA-F]+\Z", name):
                v = int(name, 16)
                if v > 0x10FFFF or 0xD800 <= v < 0xE000:
                    raise Unknown
                return ("c", v)
            if self.fold:
                raise Unknown
            if ch + name in NAMES:
                return ("c", NAMES[ch + name])
            if ch in "(){}[]\";'`,| \n\t" or ch == "x" or not (ch + name).isalnum():
                raise Unknown
            raise ReadError
        m = re.compile(r"#([0-9]+)([=#])").match(self.t, self.i)
        if m:
            self.i = m.end()
            n = int(m.group(1))
            if m.group(2) == "#":
                if n not in self.labels:
                    raise ReadError
                x = self.labels[n]
                return x
            if n in self.labels or m.group(1) != str(n):
                raise Unknown
            hole = ["label", n]
            self.labels[n] = hole
            x = self.datum()
            if x is hole:
                raise Unknown
            self.labels[n] = x
            return patch(x, hole, x)
        j = self.i
        m = re.compile(r"#(u8|s8|u16|s16|u32|s32|u64|s64|f32|f64)(?=\()").match(self.t, j)
        if m:
            self.i = m.end() + 1
            x = self.rest()
            items = []
            while isinstance(x, Pair):
                v = x.car
                if HV[m.group(1)] is None:
                    if not (isinstance(v, tuple) and v[0] == "f"):
                        raise Unknown
                    if m.group(1) == "f32" and v[1] == v[1] and abs(v[1]) != float("inf"):
                        import struct
                        try:
                            if struct.unpack("<f", struct.pack("<f", v[1]))[0] != v[1]:
                                raise Unknown
                        except OverflowError:
                            raise Unknown
                elif not (isinstance(v, tuple) and v[0] == "i" and HV[m.group(1)][0] <= v[1] <= HV[m.group(1)][1]):
                    raise Unknown
                items.append(v)
                x = x.cdr
            if x is not None:
                raise Unknown
            return (m.group(1), items)
        t = self.token()
        if t in ("#t", "#true"):
            return True
        if t in ("#f", "#false"):
            return False
        m = re.match(r"#([bodxBODX])(.*)\Z", t)
        if m and m.group(2):
            n = number(m.group(2), {"b": 2, "o": 8, "d": 10, "x": 16}[m.group(1).lower()])
            if n is not None:
                return n
        raise Unknown


def patch(root, hole, value):
    seen, todo = set(), [root]
    if root is hole:
        return value
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Pair):
            for a in ("car", "cdr"):
                v = getattr(x, a)
                if v is hole:
                    setattr(x, a, value)
                else:
                    todo.append(v)
        elif isinstance(x, Vec):
            for k, v in enumerate(x.items):
                if v is hole:
                    x.items[k] = value
                else:
                    todo.append(v)
    return root


def readall(text):
    """([(datum, end)], status): status is EOF, R or ?; stops at the first error or doubt."""
    r = Reader(text)
    out = []
    try:
        while True:
            try:
                x = r.read()
            except RecursionError:
                raise Unknown
            out.append((x, r.i))
    except Eof:
        return out, "EOF"
    except ReadError:
        return out, "R"
    except Unknown:
        return out, "?"


# -- canonical text --------------------------------------------------------------

def cps(s):
    return "".join(" %d" % ord(c) for c in s)


def num(x):
    k = x[0]
    if k == "i":
        return "(i %d)" % x[1]
    if k == "q":
        return "(i %d/%d)" % (x[1].numerator, x[1].denominator)
    if k == "f":
        v = x[1]
        if v != v:
            return "(nan)"
        if v in (float("inf"), float("-inf")):
            return "(inf %s)" % ("+" if v > 0 else "-")
        q = Fraction(v)
        return "(f %s)" % (q.numerator if q.denominator == 1 else q)
    if k == "z":
        return "(z %s %s)" % (num(x[1]), num(x[2]))
    raise ValueError(x)


def show(x):
    """What %show of PRELUDE makes of it. No cycles."""
    if x is True or x is False:
        return "#t" if x else "#f"
    if x is None:
        return "()"
    if isinstance(x, Pair):
        items = []
        while isinstance(x, Pair):
            items.append(show(x.car))
            x = x.cdr
        return "(l %s %s)" % ("".join(" " + i for i in items).strip(), show(x))
    if isinstance(x, Vec):
        return "(v%s)" % "".join(" " + show(i) for i in x.items)
    k = x[0]
    if k == "c":
        return "(c %d)" % x[1]
    if k == "s":
        return "(s%s)" % cps(x[1])
    if k == "y":
        return "(y%s)" % cps(x[1])
    if k in HV:
        return "(%s%s)" % (k, "".join(" " + num(i) for i in x[1]))
    return num(x)


def graph(x):
    """What %graph of PRELUDE makes of it: pairs and vectors numbered in preorder."""
    ids = {}

    def go(x):
        if isinstance(x, (Pair, Vec)):
            if id(x) in ids:
                return "(r %d)" % ids[id(x)]
            ids[id(x)] = len(ids)
            if isinstance(x, Pair):
                a = go(x.car)
                return "(p %s %s)" % (a, go(x.cdr))
            return "(v%s)" % "".join(" " + go(i) for i in x.items)
        return show(x)
    return go(x)


PRELUDE = r"""
(define (%num x)
  (cond ((not (real? x)) (list 'z (%num (real-part x)) (%num (imag-part x))))
        ((exact? x) (list 'i x))
        ((nan? x) (list 'nan))
        ((infinite? x) (list 'inf (if (< 0 x) '+ '-)))
        (else (list 'f (exact x)))))
(define (%codes s) (map char->integer (string->list s)))
(define (%hv tag n ref x) (let loop ((i (- n 1)) (r '())) (if (< i 0) (cons tag r) (loop (- i 1) (cons (%num (ref x i)) r)))))
(define (%leaf x)
  (cond ((number? x) (%num x))
        ((char? x) (list 'c (char->integer x)))
        ((string? x) (cons 's (%codes x)))
        ((symbol? x) (cons 'y (%codes (symbol->string x))))
""" + "".join("        ((%svector? x) (%%hv '%s (%svector-length x) %svector-ref x))\n" % (t, t, t, t) for t in HV) + r"""
        ((eof-object? x) 'eof)
        (else x)))
(define (%show x)
  (cond ((pair? x) (let loop ((x x) (r '())) (if (pair? x) (loop (cdr x) (cons (%show (car x)) r)) (cons 'l (append (reverse r) (list (%show x)))))))
        ((vector? x) (cons 'v (map %show (vector->list x))))
        (else (%leaf x))))
(define (%graph x)
  (let ((ids '()) (n 0))
    (define (go x)
      (if (or (pair? x) (vector? x))
          (let ((a (assq x ids)))
            (if a
                (list 'r (cdr a))
                (begin (set! ids (cons (cons x n) ids))
                       (set! n (+ n 1))
                       (if (pair? x)
                           (let* ((a (go (car x))) (d (go (cdr x)))) (list 'p a d))
                           (let loop ((i 0) (r '())) (if (= i (vector-length x)) (cons 'v (reverse r)) (loop (+ i 1) (cons (go (vector-ref x i)) r))))))))
          (%leaf x)))
    (go x)))
"""

# -- data ------------------------------------------------------------------------

CHARS = [0, 1, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 33, 34, 35, 39, 40, 41, 44, 45, 46, 48, 59, 64, 65, 91, 92, 97, 120, 124, 126, 127, 128, 133, 160, 0xE9, 0x3BB, 0x7FF, 0x800, 0x2028, 0x20AC, 0xD7FF, 0xE000, 0xFFFD,
         0xFFFF, 0x10000, 0x1F600, 0x10FFFF]
SYMS = ["a", "b", "foo", "x1", "set!", "+", "-", "...", "->x", "1+", "+a", "-.", "a.b", ".a", "list->vector", "<=?", "!$%&*/:<=>?^_~", "\u03bb", "quote", "quasiquote", "unquote", "unquote-splicing", "", " ", "a b", "A", "Foo",
        "1", "-1", "+1.5", "1/2", ".5", "1e3", "+inf.0", "-inf.0", "+nan.0", "+i", "-i", "1+i", ".", "..", "#", "#t", "#foo", "a#b", "a|b", "|", "||", "(", ")", "a(b", "\"", "a\"b", ";", "a;b", "'", "a'b", "`", ",", ",@", "\\", "a\\b", "\n", "a\nb", "\t",
        "\x00", "x\x07y", "\u00e9t\u00e9", "\u3042", "\U0001f600", "[", "]", "{", "}", "a[b", "@", "a@b", "+5", "-5x", "1x", "0x", "nan", "inf", "e", "1e", "e1", "+e1", "--", "+-", "-+1", "1/", "/1", "1/0", "1.2.3", "\x7f", "\u00a0", "\u2028"]


INTEGRAL_FLONUMS = True


def rnum(r):
    x = r.random()
    if x < 0.5:
        return ("i", r.choice([0, 1, -1, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**63, -2**63, r.randint(-100, 100), r.getrandbits(100), -r.getrandbits(200)]))
    if x < 0.65:
        q = Fraction(r.randint(-10**6, 10**6), r.randint(1, 10**6)) if r.random() < 0.7 else Fraction(r.getrandbits(80) - 2**79, r.getrandbits(80) + 1)
        return ("i", q.numerator) if q.denominator == 1 else ("q", q)
    import struct
    if x < 0.9:
        while True:
            v = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0] if r.random() < 0.4 else r.choice([0.0, 1.0, -1.5, 1e21, 1e22, 1e-7, 123456.789, 5e-324, 1.7976931348623157e308, 0.1, r.uniform(-1000, 1000), float(r.randint(-10**9, 10**9))])
            if v == v and (INTEGRAL_FLONUMS or v != v // 1 or abs(v) > 1e30):
                return ("f", v)
    return ("f", r.choice([float("inf"), float("-inf"), float("nan")]))


def rstring(r, n=None):
    n = r.choice([0, 1, 2, 3, 5, 10, 30]) if n is None else n
    m = r.random()
    return "".join(chr(r.choice(CHARS)) if m < 0.5 else chr(r.choice([r.randint(32, 126), r.randint(32, 126), r.randint(0, 31), r.randint(0x80, 0xD7FF), r.randint(0xE000, 0x10FFFF)])) for _ in range(n))


def rsym(r):
    x = r.random()
    if x < 0.75:
        return r.choice(SYMS)
    if x < 0.88:
        return "".join(r.choice("abcxyz019+-.eEiI/#@!") for _ in range(r.randint(1, 6)))
    return rstring(r)


def rhv(r):
    k = r.choice(list(HV))
    n = r.choice([0, 1, 2, 3, 6])
    if HV[k]:
        lo, hi = HV[k]
        return (k, [("i", r.choice([lo, hi, 0, r.randint(lo, hi), r.randint(max(lo, -9), min(hi, 9))])) for _ in range(n)])
    import struct
    out = []
    for _ in range(n):
        v = r.choice([0.0, 1.5, -2.25, 1024.0, float("inf"), float(r.randint(-2**24, 2**24)) / 2**r.randint(0, 10)])
        out.append(("f", v))
    return (k, out)


def ratom(r):
    x = r.random()
    return (rnum(r) if x < 0.3 else r.random() < 0.5 if x < 0.36 else ("c", r.choice(CHARS) if r.random() < 0.7 else r.choice([r.randint(0, 0xD7FF), r.randint(0xE000, 0x10FFFF), r.randint(0, 127)])) if x < 0.5
            else ("s", rstring(r)) if x < 0.66 else ("y", rsym(r)) if x < 0.84 else rhv(r) if x < 0.94 else None)


def rdatum(r, d):
    x = r.random()
    if d <= 0 or x < 0.3:
        return ratom(r)
    if x < 0.72:
        t = None if r.random() < 0.75 else ratom(r)
        for _ in range(r.choice([0, 1, 2, 3, 4, 6])):
            t = Pair(rdatum(r, d - 1), t)
        return t
    if x < 0.84:
        return Vec([rdatum(r, d - 1) for _ in range(r.choice([0, 1, 2, 3, 5]))])
    if x < 0.94:
        return Pair(("y", r.choice(["quote", "quasiquote", "unquote", "unquote-splicing"])), Pair(rdatum(r, d - 1), None) if r.random() < 0.8 else rdatum(r, d - 2))
    return ratom(r)


def rgraph(r, acyclic=False):
    """A graph of pairs and vectors with sharing (and cycles)."""
    n = r.randint(1, 8)
    nodes = [Pair(None, None) if r.random() < 0.75 else Vec([None] * r.randint(1, 3)) for _ in range(n)]

    def target(i):
        x = r.random()
        if x < 0.45:
            return r.choice([("i", r.randint(0, 9)), ("y", r.choice("abc")), None, True, ("s", "s"), ("c", 97)])
        j = r.randint(i + 1, n - 1) if acyclic and i + 1 < n else None if acyclic else r.randrange(n)
        return None if j is None else nodes[j]
    for i, x in enumerate(nodes):
        if isinstance(x, Pair):
            x.car = target(i)
            x.cdr = target(i)
        else:
            x.items = [target(i) for _ in x.items]
    return nodes[0]


def build(x):
    """A Scheme expression that constructs the datum without the reader's help
    (numbers are written in decimal, which the check of numbers covers)."""
    if x is True or x is False:
        return "#t" if x else "#f"
    if x is None:
        return "'()"
    if isinstance(x, Pair):
        items = []
        while isinstance(x, Pair):
            items.append(build(x.car))
            x = x.cdr
        return "(list %s)" % " ".join(items) if x is None else "(cons* %s %s)" % (" ".join(items), build(x))
    if isinstance(x, Vec):
        return "(vector %s)" % " ".join(map(build, x.items))
    k = x[0]
    if k == "c":
        return "(integer->char %d)" % x[1]
    if k == "s":
        return "(list->string (map integer->char '(%s)))" % cps(x[1])
    if k == "y":
        return "(string->symbol (list->string (map integer->char '(%s))))" % cps(x[1])
    if k in HV:
        return "(%svector %s)" % (k, " ".join(map(build, x[1])))
    if k == "f":
        v = x[1]
        if v != v:
            return "+nan.0"
        if v in (float("inf"), float("-inf")):
            return "+inf.0" if v > 0 else "-inf.0"
        q = Fraction(v)
        return "(inexact %s)" % (q.numerator if q.denominator == 1 else q) if v or str(v)[0] != "-" else "-0.0"
    return str(x[1])


def build_graph(x):
    """Constructs a graph, by mutation."""
    nodes, ids, todo = [], {}, [x]
    while todo:
        y = todo.pop()
        if isinstance(y, (Pair, Vec)) and id(y) not in ids:
            ids[id(y)] = len(nodes)
            nodes.append(y)
            todo += [y.car, y.cdr] if isinstance(y, Pair) else y.items
    ref = lambda y: "n%d" % ids[id(y)] if isinstance(y, (Pair, Vec)) else build(y)
    lets = " ".join("(n%d %s)" % (i, "(cons 0 0)" if isinstance(y, Pair) else "(make-vector %d 0)" % len(y.items)) for i, y in enumerate(nodes))
    sets = " ".join("(set-car! n%d %s) (set-cdr! n%d %s)" % (i, ref(y.car), i, ref(y.cdr)) if isinstance(y, Pair) else " ".join("(vector-set! n%d %d %s)" % (i, k, ref(v)) for k, v in enumerate(y.items))
                    for i, y in enumerate(nodes))
    return "(let (%s) %s %s)" % (lets, sets, ref(x)), ids


# -- spellings --------------------------------------------------------------------

def gap(r, must):
    """White space or a comment. must: something has to separate."""
    out = []
    if must or r.random() < 0.3:
        out.append(r.choice([" ", " ", " ", "\n", "\t", "  ", "\r\n", "\n\n ", "\f"]))
    if r.random() < 0.2:
        out.append(r.choice(["; comment ( \" |# #|\n", ";\n", ";;; #;\n", "#| block ) |#", "#||#", "#| #| nested |# \" ; |#", "#|\n|#", "#|||#", "#;x ", "#;(1 2 \")\") ", "#;#;a b ", "#; \"x\"", "#;'q ", "#;#\\) ", "#;#(1 2)", "#;|a b| ", "#;1 #|x|# "]))
        if must and r.random() < 0.5:
            out.append(" ")
    s = "".join(out)
    return s if s or not must else " "


def spell_string(r, s, q):
    out = []
    for c in s:
        x = r.random()
        if c in (q, "\\"):
            out.append("\\" + c if x < 0.8 else "\\x%x;" % ord(c))
        elif c == "\r" or (ord(c) < 32 and c not in "\n\t" and x < 0.7):
            out.append({"\a": "\\a", "\b": "\\b", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, "\\x%X;" % ord(c)))
        elif c in "\n\t" and x < 0.6:
            out.append("\\n" if c == "\n" else "\\t")
        elif x < 0.06:
            out.append("\\x%s;" % (r.choice(["%x", "%X", "0%x", "00%X"]) % ord(c)))
        else:
            out.append(c)
        if q == '"' and r.random() < 0.02:
            out.append("\\\n" + r.choice(["", "  ", "\t"]))
            if out[-1] and c in " \t":
                pass
    # a line continuation swallows blanks that follow it
    res = ""
    for k, p in enumerate(out):
        if p.startswith("\\\n") and k + 1 < len(out) and out[k + 1][:1] in (" ", "\t", "\n", "\r", "\f", "\v", "\\") :
            continue
        if p.startswith("\\\n") and k + 1 < len(out) and ord(out[k + 1][:1]) in (11, 12, 13, 0x85, 0xA0, 0x2028):
            continue
        res += p
    return q + res + q


def spell_num(r, x):
    if x[0] == "f":
        v = x[1]
        if v != v:
            return "+nan.0"
        if v in (float("inf"), float("-inf")):
            return "+inf.0" if v > 0 else "-inf.0"
        s = repr(v)
        if r.random() < 0.3:
            s = "%.17e" % v
        if r.random() < 0.2 and not s.startswith("-"):
            s = "+" + s
        return s
    q = Fraction(x[1])
    y = r.random()
    f = {2: "b", 8: "o", 16: "x"}
    if y < 0.25:
        base = r.choice([2, 8, 16])
        g = {2: "{:b}", 8: "{:o}", 16: r.choice(["{:x}", "{:X}"])}[base].format
        t = ("-" if q < 0 else "") + g(abs(q.numerator)) + ("/" + g(q.denominator) if q.denominator != 1 else "")
        return "#" + r.choice([f[base], f[base].upper()]) + t
    t = str(q.numerator) + ("/%d" % q.denominator if q.denominator != 1 else "")
    if y < 0.35:
        return "#d" + t
    if y < 0.45 and q >= 0:
        return "+" + t
    if y < 0.5:
        return t.replace("-", "-00") if q < 0 else "00" + t
    return t


PLAIN = re.compile(r"[a-z!$%&*/:<=>?^_~\u00e9\u03bb\u3042][a-z0-9!$%&*/:<=>?^_~+\-.@\u00e9\u03bb]*\Z")


def spell(r, x):
    """Some text that denotes the datum."""
    if x is True or x is False:
        return r.choice(["#t", "#true"] if x else ["#f", "#false"])
    if x is None:
        return "(" + gap(r, False) + ")"
    if isinstance(x, Vec):
        return "#(" + seq(r, x.items) + ")"
    if isinstance(x, Pair):
        ab = {"quote": "'", "quasiquote": "`", "unquote": ",", "unquote-splicing": ",@"}
        if isinstance(x.car, tuple) and x.car[0] == "y" and x.car[1] in ab and isinstance(x.cdr, Pair) and x.cdr.cdr is None and r.random() < 0.7:
            s = gap(r, False) + spell(r, x.cdr.car)
            if x.car[1] == "unquote" and s.startswith("@"):
                s = " " + s
            return ab[x.car[1]] + s
        items = []
        while isinstance(x, Pair):
            items.append(x.car)
            x = x.cdr
            if items and r.random() < 0.05:
                break
        s = "(" + seq(r, items)
        if x is not None:
            s += gap(r, True) + "." + gap(r, True) + spell(r, x) + gap(r, False)
        return s + ")"
    k = x[0]
    if k == "c":
        c = x[1]
        names = [n for n, v in NAMES.items() if v == c]
        o = []
        if names:
            o += ["#\\" + names[0]] * 2
        if 32 < c < 127 or c > 0xA0 and chr(c).isprintable() and not chr(c).isspace() or c == 32:
            o += ["#\\" + chr(c)] * 2
        o.append("#\\x%x" % c)
        if c == 0x78:
            o = ["#\\x", "#\\x78"]
        return r.choice(o)
    if k == "s":
        return spell_string(r, x[1], '"')
    if k == "y":
        if PLAIN.match(x[1]) and r.random() < 0.8:
            return x[1]
        return spell_string(r, x[1], "|")
    if k in HV:
        return "#%s(%s)" % (k, seq(r, x[1], plain=HV[k] is None))
    return spell_num(r, x)


def seq(r, items, plain=False):
    out = gap(r, False)
    for k, x in enumerate(items):
        s = spell(r, x)
        out += s + gap(r, k + 1 < len(items))
    return out
