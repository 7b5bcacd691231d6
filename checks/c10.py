"""write / write-shared / write-simple / display and read back."""
import os
import lexref as L
from lexref import Pair, Vec
from vlib import Case, scm_string

TECHNIQUE = "monitored execution with round-trip and differential oracles: every datum written is read back by the interpreter and, independently, its text is parsed by a reference reader in Python"
NOTE = ("Held on the generated data only (depth up to 5, graphs of up to 8 pairs and vectors). NaN payloads and the sign of zero are not compared; f32vector elements are numbers of single precision. "
        "Records, procedures and ports have no external representation. display of strings inside of lists is not specified here.")
RULE = ("random data over all readable types (numbers of all kinds, all characters, strings, symbols with any name, lists, dotted lists, vectors, homogeneous vectors, quotation forms), cyclic and "
        "shared graphs, and sequences of data written one after the other; distinct by text")
MIN = 1500

DEFS = L.PRELUDE + r"""
(define (%out f x) (call-with-port (open-output-string) (lambda (p) (f x p) (get-output-string p))))
(define (%tree s k) (let* ((p (open-input-string s)) (y (read p)) (z (read p))) (list (%codes s) (k y) (eof-object? z))))
(define (%round f x k)
  (let* ((before (k x)) (s (%out f x)) (t (%out f x)))
    (append (%tree s k) (list (equal? s t) (equal? before (k x))))))
(define (%one w k x) (%round w x k))
(define (%all s) (let ((p (open-input-string s))) (let loop ((r '())) (let ((x (read p))) (if (eof-object? x) (reverse r) (loop (cons (%show x) r)))))))
(define (%file name x)
  (let* ((s (%out write x)))
    (call-with-output-file name (lambda (p) (write x p)))
    (let* ((y (call-with-input-file name read)) (line (call-with-input-file name (lambda (p) (let loop ((r '())) (let ((c (read-char p))) (if (eof-object? c) (list->string (reverse r)) (loop (cons c r)))))))))
      (delete-file name)
      (list (equal? s line) (%show y)))))
"""


class Bad(Exception):
    pass


def sexp(t):
    """The canonical texts consist of lists, symbols, numbers and booleans only."""
    toks = t.replace("(", " ( ").replace(")", " ) ").split()
    stack = [[]]
    for x in toks:
        if x == "(":
            stack.append([])
        elif x == ")":
            y = stack.pop()
            stack[-1].append(y)
        else:
            stack[-1].append(x)
    if len(stack) != 1 or len(stack[0]) != 1:
        raise Bad(t[:200])
    return stack[0][0]


def text_of(codes):
    return "".join(chr(int(c)) for c in codes)


def flat(x):
    return "(" + " ".join(flat(y) for y in x) + ")" if isinstance(x, list) else x


def parse_back(text, x, want, how):
    """What the reference reader makes of the text."""
    data, status = L.readall(text)
    if status == "?":
        return None, True
    if status != "EOF" or len(data) != 1:
        return "the reference reader reads %d data (%s) from %r" % (len(data), status, text[:300]), False
    got = how(data[0][0])
    return (None if got == want else "the text %r denotes %s" % (text[:300], got[:500])), False


def graph_nodes(g):
    """The graph of a canonical %graph text: (root, nodes)."""
    nodes = []

    def go(y):
        if isinstance(y, list) and y and y[0] == "r":
            return ("n", int(y[1]))
        if isinstance(y, list) and y and y[0] in ("p", "v"):
            k = len(nodes)
            nodes.append(None)
            nodes[k] = (y[0], [go(z) for z in y[1:]])
            return ("n", k)
        return ("leaf", flat(y))
    return go(sexp(g)), nodes


def bisimilar(a, b):
    (ra, na), (rb, nb) = a, b
    seen, todo = set(), [(ra, rb)]
    while todo:
        x, y = todo.pop()
        if (x, y) in seen:
            continue
        seen.add((x, y))
        if x[0] != y[0]:
            return False
        if x[0] == "leaf":
            if x[1] != y[1]:
                return False
            continue
        p, q = na[x[1]], nb[y[1]]
        if p[0] != q[0] or len(p[1]) != len(q[1]):
            return False
        todo += zip(p[1], q[1])
    return True


def cyclic(x):
    state = {}

    def go(y):
        if not isinstance(y, (Pair, Vec)):
            return False
        s = state.get(id(y))
        if s == 1:
            return True
        if s == 2:
            return False
        state[id(y)] = 1
        r = any(go(z) for z in ([y.car, y.cdr] if isinstance(y, Pair) else y.items))
        state[id(y)] = 2
        return r
    return go(x)


def labels_in(text):
    """Datum labels occurring in a text without strings, characters and odd symbols."""
    import re
    return re.findall(r"#(\d+)=", text)


def run(ck):
    r = ck.rng
    L.INTEGRAL_FLONUMS = False
    cases = []

    def tree_case(x, writer, tag):
        want = L.show(x)

        def judge(kind, text):
            if kind != "V":
                return "expected a value"
            try:
                s = sexp(text)
                codes, back, eof, same, pure = s
            except (Bad, ValueError, TypeError):
                return "unexpected shape of answer"
            if flat(back) != want:
                return "reads back as %s instead of %s" % (flat(back)[:600], want[:600])
            if eof != "#t":
                return "more than one datum is read back"
            if same != "#t":
                return "written twice, the text differs"
            if pure != "#t":
                return "writing changed the datum"
            why, doubt = parse_back(text_of(codes), x, want, L.show)
            ck.stat("texts the reference reader does not judge" if doubt else "texts parsed by the reference reader")
            return why
        cases.append(Case("(%%one %s %%show %s)" % (writer, L.build(x)), judge, tag, DEFS))

    for name in L.SYMS:
        tree_case(Pair(("y", name), None), "write", "every peculiar symbol")
        tree_case(Pair(("i", 1), ("y", name)), "write", "every peculiar symbol")
    for c in L.CHARS:
        tree_case(Pair(("c", c), Pair(("s", chr(c)), Pair(("y", chr(c)), None))), "write", "every peculiar character")
        tree_case(Vec([("y", "a" + chr(c)), ("c", c)]), "write-simple", "every peculiar character")
    for _ in range(ck.n(1100, 60000)):
        x = L.rdatum(r, r.randint(0, 5))
        w = r.choice(["write", "write", "write", "write-simple", "write-shared"])
        tree_case(x, w, "tree with " + w)

    def chunk_case(lo, hi, how):
        """A list of characters of a whole range."""
        cs = [c for c in range(lo, hi) if not 0xD800 <= c < 0xE000]
        x = None
        for c in reversed(cs):
            x = Pair(("c", c) if how == "c" else (how, chr(c)), x)
        tree_case(x, "write", "characters by ranges")

    for _ in range(ck.n(60, 2500)):
        lo = r.choice([r.randrange(0, 0x3000), r.randrange(0, 0x110000 - 64)])
        chunk_case(lo, lo + 60, r.choice("csy"))
    for lo in range(0, 0x180, 64):
        for how in "csy":
            chunk_case(lo, lo + 64, how)

    # Sequences: each datum ends where its text ends.
    def seq_case():
        xs = [L.rdatum(r, r.randint(0, 2)) for _ in range(r.randint(2, 6))]
        seps = [r.choice([" ", "\n", " #;a ", "#|c|#", " ; c\n", "()"]) for _ in xs]
        want, body = [], ""
        for x, s in zip(xs, seps):
            body += "(write %s p) (write-string %s p) " % (L.build(x), '"' + s.replace("\n", "\\n") + '"')
            want.append(L.show(x))
            if s == "()":
                want.append("()")
        # a block comment right after a token is not a delimiter in this implementation: put a blank before it
        body = body.replace('(write-string "#|c|#" p)', '(write-string " #|c|#" p)')
        cases.append(Case("(let ((p (open-output-string))) %s (%%all (get-output-string p)))" % body, "(" + " ".join(want) + ")", "sequences of data", DEFS))

    for _ in range(ck.n(200, 8000)):
        seq_case()

    # Graphs
    def graph_case():
        acyclic = r.random() < 0.3
        x = L.rgraph(r, acyclic)
        if not isinstance(x, (Pair, Vec)):
            return
        expr, _ = L.build_graph(x)
        want = L.graph(x)
        cyc = cyclic(x)
        w = r.choice(["write", "write-shared"])

        def judge(kind, text):
            if kind != "V":
                return "expected a value"
            try:
                codes, back, eof, same, pure = sexp(text)
            except (Bad, ValueError, TypeError):
                return "unexpected shape of answer"
            t = text_of(codes)
            if eof != "#t" or same != "#t" or pure != "#t":
                return "read more than one datum, different texts, or changed datum: %s %s %s (%r)" % (eof, same, pure, t[:300])
            data, status = L.readall(t)
            mine = L.graph(data[0][0]) if status == "EOF" and len(data) == 1 else None
            if status == "?":
                ck.stat("texts the reference reader does not judge")
            elif mine is None:
                return "the reference reader reads %d data (%s) from %r" % (len(data), status, t[:300])
            if mine is not None and mine != flat(back):
                return "%r is read as %s" % (t[:300], flat(back)[:300])
            if w == "write-shared":
                if flat(back) != want:
                    return "sharing is not preserved: %r is read as %s instead of %s" % (t[:300], flat(back)[:300], want[:300])
            else:
                if not bisimilar(graph_nodes(flat(back)), graph_nodes(want)):
                    return "%r is not the datum written" % t[:300]
                if not cyc and labels_in(t):
                    return "labels in a datum without cycles: %r" % t[:300]
            ck.stat("graphs with cycles" if cyc else "graphs without cycles")
            return None
        cases.append(Case("(%%one %s %%graph %s)" % (w, expr), judge, "graph with " + w, DEFS))

    for _ in range(ck.n(700, 30000)):
        graph_case()

    # Files; display of strings and characters.
    for k in range(ck.n(60, 1500)):
        x = L.rdatum(r, r.randint(0, 3))
        cases.append(Case("(%%file %s %s)" % (scm_string(os.path.join(ck.scratch(), "d%d" % k)), L.build(x)), "(#t %s)" % L.show(x), "written to a file", DEFS))
    for _ in range(ck.n(120, 4000)):
        if r.random() < 0.5:
            s = L.rstring(r)
            e = L.build(("s", s))
        else:
            s = chr(r.choice(L.CHARS))
            e = L.build(("c", ord(s)))
        cases.append(Case("(%%codes (%%out display %s))" % e, "(%s)" % L.cps(s).strip(), "display of strings and characters", DEFS))

    r.shuffle(cases)
    cut = len(cases) // 4
    ck.run_cases(cases[cut:], batch=40, timeout=20)
    ck.run_cases(cases[:cut], variant="san", batch=40, timeout=60)
    ck.run_known()
