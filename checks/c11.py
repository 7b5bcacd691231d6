"""Whatever text or bytes the reader is given: the right data, a read error, or the end of file."""
import os
import lexref as L
from vlib import Case, scm_string

TECHNIQUE = "monitored execution with a differential oracle: a reference reader in Python judges each datum, the position behind it and the way the input ends, on spelled, truncated, mutated and random input; sanitizers watch the same runs"
NOTE = ("Where the reference reader is in doubt (malformed tokens, implementation-defined notation, nesting deeper than 900) only termination, absence of crashes and catchability are judged. "
        "Bytes that are not UTF-8 are judged the same way. Nesting of more than a few thousand parentheses is out of scope.")
RULE = ("sequences of data spelled with random notation, comments, white space and labels; every prefix of such texts; texts damaged by deletion, insertion, replacement, duplication and splicing of characters; random "
        "texts over the lexical alphabet; random bytes through files; distinct by text")
MIN = 900

DEFS = L.PRELUDE + r"""
(define %R (list 'R))
(define (%read1 p) (guard (e ((read-error? e) %R) (#t (list 'raised e))) (read p)))
(define (%rest p) (let loop ((n 0)) (if (eof-object? (read-char p)) n (loop (+ n 1)))))
(define (%behind s k) (let ((p (open-input-string s))) (let loop ((k k)) (if (= k 0) (%rest p) (begin (read p) (loop (- k 1)))))))
(define (%scan s)
  (let ((p (open-input-string s)))
    (let loop ((k 0) (r '()))
      (let ((x (%read1 p)))
        (cond ((eq? x %R) (reverse (cons 'R r)))
              ((eof-object? x) (reverse (cons 'EOF r)))
              (else (let* ((g (%graph x)) (n (%behind s (+ k 1)))) (loop (+ k 1) (cons (list g n) r)))))))))
(define (%brief s)
  (let ((p (open-input-string s)))
    (let loop ((k 0) (last #f))
      (let ((x (%read1 p)))
        (cond ((eq? x %R) (list k 'R (%graph last)))
              ((eof-object? x) (list k 'EOF (%graph last)))
              (else (loop (+ k 1) x)))))))
(define (%prefixes s)
  (let loop ((i 0) (prev #f) (r '()))
    (if (< (string-length s) i)
        (reverse r)
        (let ((x (%brief (string-copy s 0 i))))
          (loop (+ i 1) (list-ref x 2) (cons (if (equal? prev (list-ref x 2)) (list (car x) (cadr x)) x) r))))))
(define (%drain p limit)
  (let loop ((n 0) (errors 0))
    (if (< limit n)
        'stuck
        (let ((x (%read1 p)))
          (cond ((eof-object? x) 'ended)
                ((eq? x %R) (loop (+ n 1) (+ errors 1)))
                ((and (pair? x) (eq? (car x) 'raised)) (list 'not-a-read-error (guard (e (#t 'unprintable)) (error-object-message (cadr x)))))
                (else (loop (+ n 1) errors)))))))
"""

ALPHA = list("()()()'`,@\"|;#\\ \n\t.+-0123459abcdefixtn!/:<=>[]{}") + ["#(", "#u8(", "#|", "|#", "#;", "#\\", "#0=", "#0#", "#1=", "#1#", "\\x", "\\n", ";", "#t", "#false", "#x", "#e", "#!fold-case ", "#!eof", ",@", " . ", "nan.0", "inf.0", "...", "\u03bb", "\u00e9", "\u3042",
                                                                      "\U0001f600", "\x00", "\x7f", "\u2028", "\r", "\r\n", "\f", "\\\n  ", "#f32(", "#s64(", "#d1/2", "1e400", "1/0", "#d", "#true", "#\\x41", "#\\space", "#\\newline", "\\x41;", "\\x110000;", "\\xD800;", "\\x;", "\\"]


def unshow(x):
    return L.graph(x)


def text_case(s):
    """%scan of the text against the reference reader."""
    data, status = L.readall(s)
    parts = ["(%s %d)" % (L.graph(x), len(s) - end) for x, end in data]

    def judge(kind, text):
        if status == "?":
            want = " ".join(parts)
            if kind == "V" and not text[1:].startswith(want):
                return "expected to begin with " + want
            return None if kind == "V" else "expected a list"
        want = "(" + " ".join(parts + [status]) + ")"
        return None if (kind, text) == ("V", want) else "expected " + want
    return data, status, judge


def prefixes(s):
    out, prev = [], "#f"
    for i in range(len(s) + 1):
        data, status = L.readall(s[:i])
        if status == "?":
            return None
        g = L.graph(data[-1][0]) if data else "#f"
        out.append("(%d %s)" % (len(data), status) if g == prev else "(%d %s %s)" % (len(data), status, g))
        prev = g
    return "(" + " ".join(out) + ")"


def mutate(r, s, other):
    s = list(s)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randint(0, len(s))
        x = r.random()
        if x < 0.3 and s:
            del s[min(i, len(s) - 1)]
        elif x < 0.55:
            s[i:i] = list(r.choice(ALPHA))
        elif x < 0.7 and s:
            s[min(i, len(s) - 1)] = r.choice(ALPHA)[0]
        elif x < 0.8:
            j = r.randint(i, min(len(s), i + 12))
            s[i:i] = s[i:j]
        elif x < 0.9:
            j = r.randint(i, min(len(s), i + 12))
            del s[i:j]
        else:
            k = r.randint(0, len(other))
            s[i:] = list(other[k:])
    return "".join(s)


def some_text(r, graphs=True):
    out = L.gap(r, False)
    n = r.choice([1, 1, 2, 3, 5])
    for k in range(n):
        x = r.random()
        out += L.spell(r, L.rdatum(r, r.randint(0, 4))) if x < 0.8 or not graphs else labelled(r)
        out += L.gap(r, k + 1 < n)
    return out


def labelled(r):
    """Text with datum labels, including forward references inside of what they label."""
    nums = r.sample([0, 1, 2, 3, 10, 255], r.randint(1, 3))
    used = []

    def go(d):
        x = r.random()
        if used and x < 0.3:
            return "#%d#" % r.choice(used)
        if d <= 0 or x < 0.45:
            return r.choice(["1", "a", "()", '"s"', "#\\x", "#t", "-1/2", "|b c|"])
        head = ""
        if nums and r.random() < 0.5:
            n = nums.pop()
            used.append(n)
            head = "#%d=" % n + L.gap(r, False)
        k = r.randint(1, 4)
        body = ""
        for i in range(k):
            body += go(d - 1) + L.gap(r, i + 1 < k)
        y = r.random()
        if y < 0.6:
            return head + "(" + body + ")"
        if y < 0.75:
            return head + "(" + body + " . " + go(d - 1) + ")"
        if y < 0.9:
            return head + "#(" + body + ")"
        return head + "'" + "(" + body + ")"
    return go(3)


def run(ck):
    r = ck.rng
    texts = []

    def add(s, tag):
        texts.append((s, tag))

    for _ in range(ck.n(500, 30000)):
        add(some_text(r), "spelled data")
    for _ in range(ck.n(150, 8000)):
        add(labelled(r) + r.choice(["", " x", "\n#0=(1)"]), "datum labels")
    base = [t for t, _ in texts]
    for _ in range(ck.n(900, 60000)):
        add(mutate(r, r.choice(base)[:300], r.choice(base)[:300]), "damaged text")
    for _ in range(ck.n(500, 40000)):
        add("".join(r.choice(ALPHA) for _ in range(r.choice([1, 2, 3, 5, 8, 15, 30]))), "random text over the lexical alphabet")
    # all short texts over the critical characters
    crit = "()'`,@\"|;#\\ .1a+"
    short = [a + b + c for a in crit for b in crit for c in crit] + [a + b for a in crit for b in crit] + list(crit) + [""]
    if ck.quick:
        short = r.sample(short, 500)
    for s in short:
        add(s, "short texts of critical characters")

    cases = []
    for s, tag in texts:
        data, status, judge = text_case(s)
        ck.stat("texts judged up to " + {"EOF": "their end", "R": "a read error", "?": "a doubt"}[status])
        ck.stat("data judged", len(data))
        cases.append(Case("(%%scan %s)" % scm_string(s), judge, tag, DEFS))
        cases.append(Case("(%%drain (open-input-string %s) %d)" % (scm_string(s), len(s) + 5), "ended", tag + ", read to the end", DEFS))

    # every prefix of a text
    for _ in range(ck.n(120, 5000)):
        s = (some_text(r) if r.random() < 0.8 else labelled(r))[:160]
        want = prefixes(s)
        if want is None:
            # judge only the prefixes that are not in doubt
            for i in range(len(s)):
                data, status = L.readall(s[:i])
                if status != "?" and r.random() < 0.1:
                    cases.append(Case("(%%scan %s)" % scm_string(s[:i]), text_case(s[:i])[2], "some prefixes of a text", DEFS))
            continue
        ck.stat("prefixes judged", len(s) + 1)
        cases.append(Case("(%%prefixes %s)" % scm_string(s), want, "every prefix of a text", DEFS))

    # bytes, through files
    d = ck.scratch()
    for k in range(ck.n(250, 15000)):
        x = r.random()
        if x < 0.3:
            b = bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 10, 60])))
        else:
            b = bytearray(r.choice(texts)[0][:200].encode("utf-8"))
            for _ in range(r.choice([1, 1, 2, 4])):
                i = r.randint(0, len(b))
                c = r.choice([0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFE, 0xFF, 0, 0x22, 0x28, 0x7C])
                if r.random() < 0.5:
                    b[i:i] = bytes([c])
                elif b:
                    b[min(i, len(b) - 1)] = c
            if r.random() < 0.3:
                del b[r.randint(0, len(b)):]
            b = bytes(b)
        name = os.path.join(d, "b%d" % k)
        with open(name, "wb") as f:
            f.write(b)
        cases.append(Case("(call-with-input-file %s (lambda (p) (%%drain p %d)))" % (scm_string(name), len(b) + 5), "ended", "bytes that are not all UTF-8", DEFS))
    for k in range(ck.n(120, 4000)):
        s, tag = r.choice(texts)
        if "\r" in s:
            continue
        name = os.path.join(d, "t%d" % k)
        with open(name, "wb") as f:
            f.write(s.encode("utf-8"))
        data, status = L.readall(s)
        parts = [L.graph(x) for x, _ in data]
        if status == "?":
            continue
        cases.append(Case("(call-with-input-file %s (lambda (p) (let loop ((r '())) (let ((x (%%read1 p))) (cond ((eq? x %%R) (reverse (cons 'R r))) ((eof-object? x) (reverse (cons 'EOF r))) (else (loop (cons (%%graph x) r))))))))" % scm_string(name),
                          "(" + " ".join(parts + [status]) + ")", "read from a file", DEFS))

    r.shuffle(cases)
    cut = len(cases) // 4
    ck.run_cases(cases[cut:], batch=60, timeout=20)
    ck.run_cases(cases[:cut], variant="san", batch=60, timeout=60)
    ck.run_known()
