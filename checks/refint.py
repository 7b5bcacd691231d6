"""A reference interpreter for Scheme programs: the oracle of the behavioural checks.

Programs are compiled to continuation-passing closures run by a trampoline, so
continuations are first class and re-entrant.  syntax-rules macros are expanded
hygienically (inserted identifiers are aliases that remember the environment of
the definition).  Everything whose result the language leaves open raises
Discard: the oracle then says nothing about the program.
"""
from fractions import Fraction
import collections, itertools, random, sys

sys.setrecursionlimit(20000)


class Discard(Exception):
    """The reference has no opinion on this program."""


# -- data ---------------------------------------------------------------------
class Sym:
    __slots__ = ("name",)
    table = {}

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def S(name):
    s = Sym.table.get(name)
    if s is None:
        s = Sym.table[name] = Sym(name)
    return s


class Nil:
    __slots__ = ()

    def __repr__(self):
        return "()"


NIL = Nil()


class Unspec:
    __slots__ = ()


UNSPEC = Unspec()
UNASSIGNED = object()
EOF = type("Eof", (), {"__slots__": ()})()


class Pair:
    __slots__ = ("car", "cdr")

    def __init__(self, a, d):
        self.car, self.cdr = a, d


class Char:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(self.c)


class Str:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = list(s)


class Values:
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals


class Prim:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f


class CtlPrim:                     # f(m, args, k, dyn) -> step
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f


class Closure:
    __slots__ = ("params", "rest", "body", "env")

    def __init__(self, params, rest, body, env):
        self.params, self.rest, self.body, self.env = params, rest, body, env


class CaseLambda:
    __slots__ = ("clauses",)

    def __init__(self, clauses):
        self.clauses = clauses


class Cont:
    __slots__ = ("k", "dyn")

    def __init__(self, k, dyn):
        self.k, self.dyn = k, dyn


class Param:
    __slots__ = ("value", "conv")

    def __init__(self, value, conv):
        self.value, self.conv = value, conv


class Promise:
    __slots__ = ("box",)

    def __init__(self, box):
        self.box = box             # [[done, value-or-thunk]] shared


class RecordType:
    __slots__ = ("name", "fields")

    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Record:
    __slots__ = ("rtd", "vals")

    def __init__(self, rtd, vals):
        self.rtd, self.vals = rtd, vals


class ErrorObject:
    __slots__ = ("message", "irritants", "primitive")

    def __init__(self, message, irritants, primitive=False):
        self.message, self.irritants, self.primitive = message, irritants, primitive


class Box:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class SchemeError(Exception):
    """An error raised by a primitive."""

    def __init__(self, obj):
        self.obj = obj


def prim_error(message="", *irritants):
    return SchemeError(ErrorObject(Str(message), lst(irritants), True))


def lst(xs, tail=NIL):
    for x in reversed(list(xs)):
        tail = Pair(x, tail)
    return tail


def bindings2(x):
    bs = unlst(x)
    for b in bs:
        if len(unlst(b)) != 2:
            raise Discard("syntax")
    return bs


def unlst(x):
    out = []
    while isinstance(x, Pair):
        out.append(x.car)
        x = x.cdr
        if len(out) > 50000:
            raise Discard("cyclic or huge list")
    if x is not NIL:
        raise Discard("improper list")
    return out


def is_proc(x):
    return isinstance(x, (Prim, CtlPrim, Closure, CaseLambda, Cont, Param))


CHARNAMES = {" ": "space", "\n": "newline", "\t": "tab", "\r": "return", "\0": "null", "\x7f": "delete", "\x1b": "escape", "\x07": "alarm", "\x08": "backspace"}


def show(x, budget=None):
    """External representation as `write` gives it."""
    if budget is None:
        budget = [20000]
    budget[0] -= 1
    if budget[0] < 0:
        raise Discard("huge representation")
    if x is True:
        return "#t"
    if x is False:
        return "#f"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, Fraction):
        return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)
    if isinstance(x, (Sym, Alias)):
        return base_sym(x).name
    if x is NIL:
        return "()"
    if isinstance(x, Str):
        for c in x.s:
            if not (32 <= ord(c) < 127):
                raise Discard("representation of strings with special characters")
        return '"' + "".join("\\" + c if c in '"\\' else c for c in x.s) + '"'
    if isinstance(x, Char):
        if x.c in CHARNAMES:
            return "#\\" + CHARNAMES[x.c]
        return "#\\" + x.c
    if isinstance(x, Pair):
        out = []
        n = 0
        while isinstance(x, Pair):
            out.append(show(x.car, budget))
            x = x.cdr
            n += 1
            if n > 100000:
                raise Discard("cyclic")
        if x is not NIL:
            out += [".", show(x, budget)]
        return "(" + " ".join(out) + ")"
    if isinstance(x, list):
        return "#(" + " ".join(show(e, budget) for e in x) + ")"
    if isinstance(x, bytearray):
        return "#u8(" + " ".join(str(e) for e in x) + ")"
    if isinstance(x, Values) and len(x.vals) != 1:
        raise Discard("multiple values at the end")
    raise Discard("no portable representation: %r" % (x,))


# -- reader / writer of program text -------------------------------------------
def parse(text):
    toks = tokenize(text)
    pos = [0]

    def rd():
        t = toks[pos[0]]
        pos[0] += 1
        if t == "(":
            out = []
            tail = NIL
            while toks[pos[0]] != ")":
                if toks[pos[0]] == ".":
                    pos[0] += 1
                    tail = rd()
                else:
                    out.append(rd())
            pos[0] += 1
            return lst(out, tail)
        if t == "#(":
            out = []
            while toks[pos[0]] != ")":
                out.append(rd())
            pos[0] += 1
            return out
        if t in QUOTES:
            return lst([S(QUOTES[t]), rd()])
        return atom(t)

    out = []
    while pos[0] < len(toks):
        out.append(rd())
    return out


QUOTES = {"'": "quote", "`": "quasiquote", ",": "unquote", ",@": "unquote-splicing"}


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in " \n\t":
            i += 1
        elif c == ";":
            while i < n and s[i] != "\n":
                i += 1
        elif c in "()'`":
            out.append(c)
            i += 1
        elif c == ",":
            if s[i:i + 2] == ",@":
                out.append(",@")
                i += 2
            else:
                out.append(",")
                i += 1
        elif c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s[i:i + 2] == "#(":
            out.append("#(")
            i += 2
        elif s[i:i + 2] == "#\\":
            j = i + 3
            while j < n and s[j] not in " \n\t()'`,\";":
                j += 1
            out.append(s[i:j])
            i = j
        else:
            j = i
            while j < n and s[j] not in " \n\t()'`,\";":
                j += 1
            out.append(s[i:j])
            i = j
    return out


def atom(t):
    if t[0] == '"':
        return Str(t[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    if t in ("#t", "#true"):
        return True
    if t in ("#f", "#false"):
        return False
    if t.startswith("#\\"):
        nm = t[2:]
        for k, v in CHARNAMES.items():
            if v == nm:
                return Char(k)
        return Char(nm)
    try:
        return int(t)
    except ValueError:
        pass
    try:
        if "/" in t and len(t) > 1:
            return Fraction(t)
    except ValueError:
        pass
    return S(t)


# -- syntax --------------------------------------------------------------------
class Alias:
    """An identifier inserted by a macro: names what `sym` names in `scope`."""
    __slots__ = ("sym", "scope")

    def __init__(self, sym, scope):
        self.sym, self.scope = sym, scope


def base_sym(x):
    while isinstance(x, Alias):
        x = x.sym
    return x


def is_id(x):
    return isinstance(x, (Sym, Alias))


def strip(x):
    if isinstance(x, Alias):
        return base_sym(x)
    if isinstance(x, Pair):
        return Pair(strip(x.car), strip(x.cdr))
    if isinstance(x, list):
        return [strip(e) for e in x]
    return x


class Var:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Macro:
    def __init__(self, spec, scope):
        self.scope = scope
        spec = spec.cdr
        self.ellipsis = S("...")
        if is_id(spec.car):
            self.ellipsis = spec.car
            spec = spec.cdr
        self.literals = unlst(spec.car)
        self.rules = [(r.car, r.cdr.car) for r in unlst(spec.cdr)]
        for r in unlst(spec.cdr):
            if len(unlst(r)) != 2 or not isinstance(r.car, Pair) or not is_id(r.car.car) or not all(map(is_id, self.literals)):
                raise Discard("syntax")
            vs = self.vars(r.car.cdr)
            if len(set(vs)) != len(vs):
                raise Discard("duplicate pattern variables")
            self.check_pattern(r.car.cdr)
            self.check_template(r.cdr.car, dict(self.depths(r.car.cdr, 0)), 0, False)

    def check_pattern(self, p):
        if isinstance(p, list):
            p = lst(p)
        n = 0
        while isinstance(p, Pair):
            if self.is_ellipsis(p.car):
                n += 1
                if n > 1:
                    raise Discard("two ellipses in a pattern")
            else:
                self.check_pattern(p.car)
            p = p.cdr
        if self.is_ellipsis(p):
            raise Discard("ellipsis alone")

    def check_template(self, t, depths, d, escaped):
        """Every variable under exactly as many ellipses as in its pattern;
        every ellipsis over some variable.  Returns the greatest depth."""
        if is_id(t):
            if not escaped and self.is_ellipsis(t):
                raise Discard("ellipsis alone in a template")
            if depths.get(t, 0) not in (0, d):
                raise Discard("variable under the wrong number of ellipses")
            return depths.get(t, 0)
        if isinstance(t, list):
            t = lst(t)
        if isinstance(t, Pair):
            if not escaped and self.is_ellipsis(t.car):
                if len(unlst(t)) != 2:
                    raise Discard("escape")
                return self.check_template(t.cdr.car, depths, d, True)
            n, rest = 0, t.cdr
            while not escaped and isinstance(rest, Pair) and self.is_ellipsis(rest.car):
                n, rest = n + 1, rest.cdr
            deep = self.check_template(t.car, depths, d + n, escaped)
            if n and deep < d + n:
                raise Discard("ellipsis without variable")
            return max(deep, self.check_template(rest, depths, d, escaped))
        return 0

    def is_ellipsis(self, x):
        if not is_id(x) or x in self.literals:
            return False
        if x is self.ellipsis:
            return True
        if base_sym(x) is base_sym(self.ellipsis):
            raise Discard("which identifiers equal the ellipsis")
        return False

    def match(self, p, x, use_scope, b):
        if is_id(p):
            if p in self.literals:
                return is_id(x) and same_binding(x, use_scope, p, self.scope)
            if base_sym(p) is S("_") and not isinstance(p, Alias):
                return True
            b[p] = x
            return True
        if isinstance(p, Pair):
            if isinstance(p.cdr, Pair) and self.is_ellipsis(p.cdr.car):
                after = p.cdr.cdr
                m = 0
                a = after
                while isinstance(a, Pair):
                    m += 1
                    a = a.cdr
                items = []
                while isinstance(x, Pair):
                    items.append(x.car)
                    x = x.cdr
                n = len(items) - m
                if n < 0:
                    return False
                # rebuild the tail
                rest = lst(items[n:], x)
                seqs = []
                for it in items[:n]:
                    bb = {}
                    if not self.match(p.car, it, use_scope, bb):
                        return False
                    seqs.append(bb)
                for v in self.vars(p.car):
                    b[v] = [bb[v] for bb in seqs]
                return self.match(after, rest, use_scope, b)
            return isinstance(x, Pair) and self.match(p.car, x.car, use_scope, b) and self.match(p.cdr, x.cdr, use_scope, b)
        if p is NIL:
            return x is NIL
        if isinstance(p, list):
            return isinstance(x, list) and self.match(lst(p), lst(x), use_scope, b)
        return equal(p, x)

    def vars(self, p):
        if is_id(p):
            if p in self.literals or self.is_ellipsis(p) or (base_sym(p) is S("_") and not isinstance(p, Alias)):
                return []
            return [p]
        if isinstance(p, Pair):
            return self.vars(p.car) + self.vars(p.cdr)
        if isinstance(p, list):
            return [v for e in p for v in self.vars(e)]
        return []

    def expand(self, form, use_scope):
        for pat, tmpl in self.rules:
            b = {}
            if self.match(pat.cdr, form.cdr, use_scope, b):
                aliases = {}
                depths = {v: d for v, d in self.depths(pat.cdr, 0)}
                return self.instantiate(tmpl, b, depths, aliases, False)
        raise NoMatch()

    def depths(self, p, d):
        if is_id(p):
            return [(v, d) for v in self.vars(p)]
        if isinstance(p, Pair):
            if isinstance(p.cdr, Pair) and self.is_ellipsis(p.cdr.car):
                return self.depths(p.car, d + 1) + self.depths(p.cdr.cdr, d)
            return self.depths(p.car, d) + self.depths(p.cdr, d)
        if isinstance(p, list):
            return self.depths(lst(p), d)
        return []

    def instantiate(self, t, b, depths, aliases, escaped):
        if is_id(t):
            if t in b:
                return b[t]
            if t not in aliases:
                aliases[t] = Alias(t, self.scope)
            return aliases[t]
        if isinstance(t, Pair):
            if not escaped and self.is_ellipsis(t.car):
                return self.instantiate(t.cdr.car, b, depths, aliases, True)
            if not escaped and isinstance(t.cdr, Pair) and self.is_ellipsis(t.cdr.car):
                n = 0
                rest = t.cdr
                while isinstance(rest, Pair) and self.is_ellipsis(rest.car):
                    n += 1
                    rest = rest.cdr
                items = self.gen(t.car, b, depths, aliases, n)
                return lst(items, self.instantiate(rest, b, depths, aliases, escaped))
            return Pair(self.instantiate(t.car, b, depths, aliases, escaped), self.instantiate(t.cdr, b, depths, aliases, escaped))
        if isinstance(t, list):
            return unlst(self.instantiate(lst(t), b, depths, aliases, escaped))
        return t

    def gen(self, t, b, depths, aliases, n):
        vs = [v for v in self.vars(t) if v in b and isinstance(b[v], list) and depths.get(v, 0) > 0]
        if not vs:
            raise Discard("ellipsis without variable")
        ls = {len(b[v]) for v in vs}
        if len(ls) != 1:
            raise Discard("ellipsis lengths differ")
        out = []
        for i in range(ls.pop()):
            bb = dict(b)
            dd = dict(depths)
            for v in vs:
                bb[v] = b[v][i]
                dd[v] = depths[v] - 1
            if n == 1:
                out.append(self.instantiate(t, bb, dd, aliases, False))
            else:
                out.extend(self.gen(t, bb, dd, aliases, n - 1))
        return out


class NoMatch(Exception):
    pass


class Scope:
    """Compile-time environment: identifier -> Var | Macro | special name."""

    def __init__(self, parent=None):
        self.parent, self.d = parent, {}

    def bind(self, ident, what):
        if not is_id(ident):
            raise Discard("syntax")
        self.d[ident] = what

    def lookup(self, ident):
        s = self
        while s is not None:
            if ident in s.d:
                return s.d[ident]
            s = s.parent
        if isinstance(ident, Alias):
            return ident.scope.lookup(ident.sym)
        return None

    @property
    def top(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s


def same_binding(x, xs, y, ys):
    a, b = xs.lookup(x), ys.lookup(y)
    if a is None and b is None:
        return base_sym(x) is base_sym(y)
    return a is b


class Env:
    __slots__ = ("d", "parent")

    def __init__(self, d, parent):
        self.d, self.parent = d, parent

    def find(self, var):
        e = self
        while e is not None:
            if var in e.d:
                return e.d
            e = e.parent
        return None


class Dyn:
    """Dynamic environment: winds (linked list), handlers (linked), parameters."""
    __slots__ = ("winds", "handlers", "params")

    def __init__(self, winds=None, handlers=None, params=None):
        self.winds, self.handlers, self.params = winds, handlers, params


class Wind:
    __slots__ = ("before", "after", "dyn", "depth", "parent")

    def __init__(self, before, after, dyn):
        self.before, self.after, self.dyn = before, after, dyn
        self.parent = dyn.winds
        self.depth = 1 + (dyn.winds.depth if dyn.winds else 0)


SPECIAL = set("""quote lambda if set! define begin let let* letrec letrec* and or cond case when unless do
 quasiquote case-lambda let-values let*-values define-values receive parameterize guard delay delay-force make-promise-lazy
 define-syntax let-syntax letrec-syntax define-record-type cons-stream assert""".split())


class Machine:
    def __init__(self, order="rtl", limit=200000, seed=0):
        self.order, self.limit, self.steps = order, limit, 0
        self.ev = collections.Counter()
        self.used = {}
        self.rng = random.Random(seed)
        self.scope = Scope()
        self.genv = Env({}, None)
        self.out = []
        for s in SPECIAL:
            self.scope.bind(S(s), s)
        from refprims import PRIMS, CTL
        for n, f in PRIMS.items():
            self.defglobal(n, Prim(n, f))
        for n, f in CTL.items():
            self.defglobal(n, CtlPrim(n, f))
        self.defglobal("%out", Prim("%out", lambda x: self.out.append(x) or x))

    def defglobal(self, name, v):
        var = Var(name)
        self.scope.bind(S(name), var)
        self.genv.d[var] = v

    # -- running -----------------------------------------------------------
    def run(self, forms):
        """Evaluate top level forms; returns ('V', value) or ('E', object)."""
        v = UNSPEC
        for f in forms:
            kind, v = self.toplevel(f)
            if kind == "E":
                return kind, v
        return "V", v

    def toplevel(self, form):
        try:
            node = self.compile(form, self.scope, top=True)
        except NoMatch:
            return "E", ErrorObject(Str("no rule matches"), NIL, True)
        done = []
        self.pending = ((), None)

        def stop(v, m):
            done.append(v)
            return None
        step = node(self.genv, stop, Dyn())
        step = (step,) if callable(step) else step
        try:
            while step is not None:
                self.steps += 1
                if self.steps > self.limit:
                    raise Discard("step limit")
                try:
                    step = step[0](*step[1:])
                except SchemeError as e:
                    raise Discard("primitive error outside of apply")
        except Uncaught as u:
            for f in self.pending[0]:  # an implementation may translate all of a form before it runs any
                self.compile(f, self.pending[1], True)
            return "E", u.obj
        return "V", done[0]

    # -- application -----------------------------------------------------------
    def apply(self, f, args, k, dyn):
        if isinstance(f, Prim):
            if f.name not in HOLDERS:
                for a in args:
                    if isinstance(a, (Secondary, Unspec)):
                        raise Discard("operation on an unspecified value")
            try:
                v = f.f(*args)
            except SchemeError as e:
                return self.do_raise(e.obj, k, dyn, False)
            except TypeError as e:
                raise Discard("arity or type of %s: %s" % (f.name, e))
            return (k, v, self)
        if isinstance(f, Closure):
            d = {}
            n = len(f.params)
            if len(args) < n or (f.rest is None and len(args) > n):
                raise Discard("arity")
            for p, a in zip(f.params, args):
                d[p] = a
            if f.rest is not None:
                d[f.rest] = lst(args[n:])
            return (f.body, Env(d, f.env), k, dyn)
        if isinstance(f, CaseLambda):
            for c in f.clauses:
                n = len(c.params)
                if len(args) == n or (c.rest is not None and len(args) >= n):
                    return self.apply(c, args, k, dyn)
            return self.do_raise(ErrorObject(Str("no matching clause"), NIL, True), k, dyn, False)
        if isinstance(f, CtlPrim):
            try:
                return f.f(self, args, k, dyn)
            except TypeError as e:
                raise Discard("arity or type of %s: %s" % (f.name, e))
        if isinstance(f, Cont):
            v = args[0] if len(args) == 1 else Values(list(args))
            self.ev["continuation invoked"] += 1
            if id(f) in self.used:
                self.ev["continuation invoked again"] += 1
            self.used[id(f)] = f
            return self.rewind(dyn, f.dyn, lambda: (f.k, v, self))
        if isinstance(f, Param):
            if len(args) > 1:
                raise Discard("parameter called with arguments")
            if args:  # SRFI 39
                e = dyn.params
                while e is not None and f not in e[0]:
                    e = e[1]

                def assign(v, m=None):
                    self.ev["parameter assigned"] += 1
                    if e is None:
                        f.value = one(v)
                    else:
                        e[0][f] = one(v)
                    return (k, UNSPEC, self)
                return assign(args[0]) if f.conv is None else self.apply(f.conv, [args[0]], assign, dyn)
            return (k, self.param_value(f, dyn), self)
        if isinstance(f, (Secondary, Unspec)):
            raise Discard("call of an unspecified value")
        return self.do_raise(ErrorObject(Str("not applicable"), NIL, True), k, dyn, False)

    def param_value(self, p, dyn):
        e = dyn.params
        while e is not None:
            if p in e[0]:
                self.ev["parameter read under parameterize"] += 1
                return e[0][p]
            e = e[1]
        return p.value

    def rewind(self, frm, to, then):
        """Leave the winds of frm, enter those of to, then continue."""
        a, b = frm.winds, to.winds
        leave, enter = [], []
        while a is not b:
            if b is None or (a is not None and a.depth >= b.depth):
                leave.append(a)
                a = a.parent
            else:
                enter.append(b)
                b = b.parent
        todo = [(w, w.after) for w in leave] + [(w, w.before) for w in reversed(enter)]

        def go(i):
            if i == len(todo):
                return then()
            w, th = todo[i]
            self.ev["wind thunk run by a jump " + ("out" if i < len(leave) else "in")] += 1
            return self.apply(th, [], lambda v, m: (go, i + 1), w.dyn)
        return (go, 0)

    def do_raise(self, obj, k, dyn, continuable):
        h = dyn.handlers
        self.ev["exception raised" + (" continuably" if continuable else "")] += 1
        if h is None:
            raise Uncaught(obj)
        outer = Dyn(dyn.winds, h[1], dyn.params)
        if continuable:
            return self.apply(h[0], [obj], k, outer)
        # a handler that returns: a secondary exception in the outer handler
        return self.apply(h[0], [obj], lambda v, m: (self.secondary, obj, outer), outer)

    def secondary(self, obj, dyn):
        self.ev["handler returned"] += 1
        # the object of the secondary exception is unspecified
        if dyn.handlers is None:
            raise Uncaught(Secondary(obj))
        return self.do_raise(Secondary(obj), None, dyn, False)

    # -- compilation ---------------------------------------------------------
    def compile(self, x, sc, top=False):
        if is_id(x):
            return self.c_ref(x, sc)
        if isinstance(x, Pair):
            if is_id(x.car):
                b = sc.lookup(x.car)
                if isinstance(b, Macro):
                    self.ev["macro expanded"] += 1
                    return self.compile(b.expand(x, sc), sc, top)
                if isinstance(b, str):
                    if b in ("define", "define-values", "define-syntax", "define-record-type", "begin"):
                        return getattr(self, "s_" + b.replace("-", "_"))(x, sc, top)
                    return getattr(self, "s_" + b.replace("-", "_").replace("*", "_star").replace("!", "_x"))(x, sc)
            return self.c_app(x, sc)
        if x is NIL:
            raise Discard("empty application")
        if isinstance(x, (int, Fraction, Str, Char, bytearray)) or x is True or x is False or isinstance(x, list):
            v = strip(x) if isinstance(x, list) else x
        else:
            raise Discard("syntax")
        return lambda env, k, dyn: (k, v, self)

    def c_ref(self, x, sc):
        b = sc.lookup(x)
        if isinstance(b, (Macro, str)):
            raise Discard("keyword as expression")
        name = base_sym(x)

        def node(env, k, dyn):
            v = b if b is not None else sc.lookup(x)
            if v is None:
                raise Discard("undefined variable %s" % name.name)
            d = env.find(v)
            if d is None or d[v] is UNASSIGNED:
                raise Discard("unassigned variable %s" % name.name)
            return (k, d[v], self)
        return node

    def eval_args(self, nodes, env, dyn, then):
        """Evaluate in the machine's order; then(list of values)."""
        n = len(nodes)
        if self.order == "rtl":
            idx = list(range(n - 1, -1, -1))
        elif self.order == "ltr":
            idx = list(range(n))
        else:
            idx = list(range(n))
            self.rng.shuffle(idx)

        def go(i, acc):
            if i == n:
                vals = [None] * n
                a = acc
                while a is not None:
                    vals[a[0]] = a[1]
                    a = a[2]
                return then(vals)
            j = idx[i]
            return (nodes[j], env, lambda v, m: (go, i + 1, (j, one(v), acc)), dyn)
        return (go, 0, None)

    def c_app(self, x, sc):
        nodes = [self.compile(e, sc) for e in unlst(x)]

        def node(env, k, dyn):
            return self.eval_args(nodes, env, dyn, lambda vals: self.apply(vals[0], vals[1:], k, dyn))
        return node

    def c_seq(self, nodes):
        if len(nodes) == 1:
            return nodes[0]

        def node(env, k, dyn):
            def go(i, v):
                if i == len(nodes) - 1:
                    return (nodes[i], env, k, dyn)
                return (nodes[i], env, lambda v, m: (go, i + 1, v), dyn)
            return (go, 0, None)
        return node

    def c_body(self, forms, sc):
        """Body with internal definitions; opens a scope."""
        sc = Scope(sc)
        items = []      # (vars | None, node-maker)
        queue = list(forms)
        defs = []
        exprs = []
        while queue:
            f = queue.pop(0)
            if isinstance(f, Pair) and is_id(f.car):
                b = sc.lookup(f.car)
                if isinstance(b, Macro):
                    self.ev["macro expanded"] += 1; queue.insert(0, b.expand(f, sc))
                    continue
                if b == "begin":
                    queue[:0] = unlst(f.cdr)
                    continue
                if b == "define":
                    name, val = self.define_parts(f, sc)
                    v = Var(base_sym(name).name)
                    sc.bind(name, v)
                    defs.append(([v], None, val))
                    if exprs:
                        raise Discard("definition after expression")
                    continue
                if b == "define-values":
                    ids, rest = formals(f.cdr.car)
                    vs = [Var(base_sym(i).name) for i in ids]
                    rv = None
                    for i, v in zip(ids, vs):
                        sc.bind(i, v)
                    if rest is not None:
                        rv = Var(base_sym(rest).name)
                        sc.bind(rest, rv)
                    defs.append((vs, rv, ("values", f.cdr.cdr.car)))
                    if exprs:
                        raise Discard("definition after expression")
                    continue
                if b == "define-syntax":
                    if exprs or len(unlst(f)) != 3:
                        raise Discard("definition after expression")
                    sc.bind(f.cdr.car, self.c_macro(f.cdr.cdr.car, sc))
                    continue
                if b == "define-record-type":
                    for name, obj in self.record_parts(f):
                        v = Var(base_sym(name).name)
                        sc.bind(name, v)
                        defs.append(([v], None, ("const", obj)))
                    continue
            exprs.append(f)
        if not exprs:
            raise Discard("empty body")
        nodes = []
        allvars = []
        for vs, rv, val in defs:
            allvars += vs + ([rv] if rv else [])
            if isinstance(val, tuple) and val[0] == "const":
                o = val[1]
                nodes.append(self.n_assign(vs[0], lambda env, k, dyn, o=o: (k, o, self)))
            elif isinstance(val, tuple) and val[0] == "values":
                nodes.append(self.n_assign_values(vs, rv, self.compile(val[1], sc)))
            else:
                nodes.append(self.n_assign(vs[0], self.compile(val, sc)))
        nodes += [self.compile(e, sc) for e in exprs]
        seq = self.c_seq(nodes)
        if not allvars:
            return seq
        return lambda env, k, dyn: (seq, Env({v: UNASSIGNED for v in allvars}, env), k, dyn)

    def n_assign(self, var, node):
        def assign(env, k, dyn):
            def done(v, m):
                env.find(var)[var] = one(v)
                return (k, UNSPEC, self)
            return (node, env, done, dyn)
        return assign

    def n_assign_values(self, vs, rv, node):
        def assign(env, k, dyn):
            def done(v, m):
                vals = v.vals if isinstance(v, Values) else [v]
                if len(vals) < len(vs) or (rv is None and len(vals) != len(vs)):
                    raise Discard("wrong number of values")
                for a, b in zip(vs, vals):
                    env.find(a)[a] = b
                if rv is not None:
                    env.find(rv)[rv] = lst(vals[len(vs):])
                return (k, UNSPEC, self)
            return (node, env, done, dyn)
        return assign

    def define_parts(self, f, sc):
        target = f.cdr.car
        if not (isinstance(target, Pair) or (is_id(target) and len(unlst(f)) == 3)):
            raise Discard("syntax")
        if isinstance(target, Pair):
            # curried defines are not standard
            return target.car, Pair(Alias(S("lambda"), self.scope), Pair(target.cdr, f.cdr.cdr))
        return target, f.cdr.cdr.car

    def s_define(self, f, sc, top):
        if not top:
            raise Discard("define in expression")
        name, val = self.define_parts(f, sc)
        sc = sc.top
        b = sc.lookup(name)
        if not isinstance(b, Var) or name not in sc.d:
            b = Var(base_sym(name).name)
            sc.bind(name, b)
        node = self.compile(val, sc)

        def define(env, k, dyn):
            def done(v, m):
                self.genv.d[b] = one(v)
                return (k, UNSPEC, self)
            return (node, env, done, dyn)
        return define

    def s_define_values(self, f, sc, top):
        if not top:
            raise Discard("define in expression")
        ids, rest = formals(f.cdr.car)
        vs = []
        for i in ids + ([rest] if rest else []):
            v = Var(base_sym(i).name)
            sc.bind(i, v)
            self.genv.d[v] = UNASSIGNED
            vs.append(v)
        return self.n_assign_values(vs[:len(ids)], vs[len(ids)] if rest else None, self.compile(f.cdr.cdr.car, sc))

    def c_macro(self, spec, sc):
        if not (isinstance(spec, Pair) and is_id(spec.car) and base_sym(spec.car) is S("syntax-rules")):
            raise Discard("not syntax-rules")
        return Macro(spec, sc)

    def s_define_syntax(self, f, sc, top):
        if not top or len(unlst(f)) != 3:
            raise Discard("syntax definition in expression")
        sc.bind(f.cdr.car, self.c_macro(f.cdr.cdr.car, sc))
        return lambda env, k, dyn: (k, UNSPEC, self)

    def record_parts(self, f):
        name, ctor, pred, *fields = unlst(f.cdr)
        tname = name.car if isinstance(name, Pair) else name
        fnames = [base_sym(x.car) if isinstance(x, Pair) else base_sym(x) for x in fields]
        rtd = RecordType(base_sym(tname).name, fnames)
        out = []
        if isinstance(ctor, Pair):
            cf = [fnames.index(base_sym(c)) for c in unlst(ctor.cdr)]

            def make(*args):
                if len(args) != len(cf):
                    raise Discard("arity")
                vals = [UNASSIGNED] * len(fnames)
                for i, a in zip(cf, args):
                    vals[i] = a
                return Record(rtd, vals)
            out.append((ctor.car, Prim("make", make)))
        elif is_id(ctor):
            raise Discard("constructor without fields")
        if is_id(pred):
            out.append((pred, Prim("pred", lambda x: isinstance(x, Record) and x.rtd is rtd)))
        for i, fl in enumerate(fields):
            if not isinstance(fl, Pair):
                continue
            acc = unlst(fl.cdr)
            if acc:
                def get(x, i=i):
                    if not (isinstance(x, Record) and x.rtd is rtd) or x.vals[i] is UNASSIGNED:
                        raise Discard("accessor applied to another object")
                    return x.vals[i]
                out.append((acc[0], Prim("get", get)))
            if len(acc) > 1:
                def put(x, v, i=i):
                    if not (isinstance(x, Record) and x.rtd is rtd):
                        raise Discard("modifier applied to another object")
                    x.vals[i] = v
                    return UNSPEC
                out.append((acc[1], Prim("put", put)))
        return out

    def s_define_record_type(self, f, sc, top):
        for name, obj in self.record_parts(f):
            v = Var(base_sym(name).name)
            sc.bind(name, v)
            self.genv.d[v] = obj
        return lambda env, k, dyn: (k, UNSPEC, self)

    def s_begin(self, f, sc, top):
        forms = unlst(f.cdr)
        if not forms:
            raise Discard("empty begin")
        if not top:
            return self.c_seq([self.compile(e, sc) for e in forms])

        # at top level each form is compiled when it is reached
        def node(env, k, dyn):
            def go(i):
                n = self.compile(forms[i], sc, True)
                self.pending = (forms[i + 1:], sc)
                if i == len(forms) - 1:
                    return (n, env, k, dyn)
                return (n, env, lambda v, m: (go, i + 1), dyn)
            return (go, 0)
        return node

    def s_quote(self, f, sc):
        v = strip(f.cdr.car)
        return lambda env, k, dyn: (k, v, self)

    def s_lambda(self, f, sc):
        mk = self.c_lambda(f.cdr.car, unlst(f.cdr.cdr), sc)
        return lambda env, k, dyn: (k, mk(env), self)

    def c_lambda(self, params, body, sc):
        ids, rest = formals(params)
        inner = Scope(sc)
        vs = []
        for i in ids:
            v = Var(base_sym(i).name)
            inner.bind(i, v)
            vs.append(v)
        rv = None
        if rest is not None:
            rv = Var(base_sym(rest).name)
            inner.bind(rest, rv)
        node = self.c_body(body, inner)
        return lambda env: Closure(vs, rv, node, env)

    def s_case_lambda(self, f, sc):
        mks = [self.c_lambda(c.car, unlst(c.cdr), sc) for c in unlst(f.cdr)]
        return lambda env, k, dyn: (k, CaseLambda([mk(env) for mk in mks]), self)

    def s_if(self, f, sc):
        parts = unlst(f.cdr)
        if len(parts) not in (2, 3):
            raise Discard("syntax")
        t = self.compile(parts[0], sc)
        c = self.compile(parts[1], sc)
        a = self.compile(parts[2], sc) if len(parts) > 2 else (lambda env, k, dyn: (k, UNSPEC, self))
        return lambda env, k, dyn: (t, env, lambda v, m: ((c if one(v) is not False else a), env, k, dyn), dyn)

    def s_set_x(self, f, sc):
        name = f.cdr.car
        if len(unlst(f)) != 3 or not is_id(name):
            raise Discard("syntax")
        node = self.compile(f.cdr.cdr.car, sc)
        b = sc.lookup(name)
        if not isinstance(b, Var):
            raise Discard("set! of undefined")

        def assign(env, k, dyn):
            def done(v, m):
                d = env.find(b)
                if d is None:
                    raise Discard("set! of undefined")
                d[b] = one(v)
                return (k, UNSPEC, self)
            return (node, env, done, dyn)
        return assign

    def s_let(self, f, sc):
        if is_id(f.cdr.car):
            name, bs, body = f.cdr.car, bindings2(f.cdr.cdr.car), unlst(f.cdr.cdr.cdr)
            ids = [b.car for b in bs]
            inits = [self.compile(b.cdr.car, sc) for b in bs]
            inner = Scope(sc)
            lv = Var(base_sym(name).name)
            inner.bind(name, lv)
            mk = self.c_lambda(lst(ids), body, inner)

            def node(env, k, dyn):
                def then(vals):
                    e = Env({}, env)
                    e.d[lv] = mk(e)
                    return self.apply(e.d[lv], vals, k, dyn)
                return self.eval_args(inits, env, dyn, then)
            return node
        bs, body = bindings2(f.cdr.car), unlst(f.cdr.cdr)
        inits = [self.compile(b.cdr.car, sc) for b in bs]
        mk = self.c_lambda(lst([b.car for b in bs]), body, sc)

        def node(env, k, dyn):
            return self.eval_args(inits, env, dyn, lambda vals: self.apply(mk(env), vals, k, dyn))
        return node

    def s_let_star(self, f, sc):
        bs, body = bindings2(f.cdr.car), unlst(f.cdr.cdr)
        if not bs:
            n = self.c_body(body, sc)
            return n
        inner = sc
        steps = []
        for b in bs:
            node = self.compile(b.cdr.car, inner)
            inner = Scope(inner)
            v = Var(base_sym(b.car).name)
            inner.bind(b.car, v)
            steps.append((v, node))
        bn = self.c_body(body, inner)

        def node(env, k, dyn):
            def go(i, env):
                if i == len(steps):
                    return (bn, env, k, dyn)
                v, n = steps[i]
                return (n, env, lambda x, m: (go, i + 1, Env({v: one(x)}, env)), dyn)
            return (go, 0, env)
        return node

    def s_letrec(self, f, sc, star=False):
        bs, body = bindings2(f.cdr.car), unlst(f.cdr.cdr)
        formals(lst([b.car for b in bs]))
        inner = Scope(sc)
        vs = []
        for b in bs:
            v = Var(base_sym(b.car).name)
            inner.bind(b.car, v)
            vs.append(v)
        nodes = [self.compile(b.cdr.car, inner) for b in bs]
        bn = self.c_body(body, inner)
        if star:
            seq = self.c_seq([self.n_assign(v, n) for v, n in zip(vs, nodes)] + [bn])
            return lambda env, k, dyn: (seq, Env({v: UNASSIGNED for v in vs}, env), k, dyn)

        def node(env, k, dyn):
            e = Env({v: UNASSIGNED for v in vs}, env)

            def then(vals):
                for v, x in zip(vs, vals):
                    e.d[v] = x
                return (bn, e, k, dyn)
            return self.eval_args(nodes, e, dyn, then)
        return node

    def s_letrec_star(self, f, sc):
        return self.s_letrec(f, sc, True)

    def s_and(self, f, sc):
        nodes = [self.compile(e, sc) for e in unlst(f.cdr)]
        if not nodes:
            return lambda env, k, dyn: (k, True, self)

        def node(env, k, dyn):
            def go(i):
                if i == len(nodes) - 1:
                    return (nodes[i], env, k, dyn)
                return (nodes[i], env, lambda v, m: (go, i + 1) if one(v) is not False else (k, False, self), dyn)
            return (go, 0)
        return node

    def s_or(self, f, sc):
        nodes = [self.compile(e, sc) for e in unlst(f.cdr)]
        if not nodes:
            return lambda env, k, dyn: (k, False, self)

        def node(env, k, dyn):
            def go(i):
                if i == len(nodes) - 1:
                    return (nodes[i], env, k, dyn)
                return (nodes[i], env, lambda v, m: (go, i + 1) if one(v) is False else (k, v, self), dyn)
            return (go, 0)
        return node

    def is_kw(self, x, sc, name):
        return is_id(x) and base_sym(x) is S(name) and sc.lookup(x) is None

    def c_clauses(self, clauses, sc, default):
        """cond clauses -> node; default: node when none matches."""
        if not clauses:
            return default
        c = clauses[0]
        rest = self.c_clauses(clauses[1:], sc, default)
        if self.is_kw(c.car, sc, "else"):
            return self.c_seq([self.compile(e, sc) for e in unlst(c.cdr)])
        t = self.compile(c.car, sc)
        if c.cdr is NIL:
            return lambda env, k, dyn: (t, env, lambda v, m: (k, v, self) if one(v) is not False else (rest, env, k, dyn), dyn)
        if self.is_kw(c.cdr.car, sc, "=>"):
            r = self.compile(c.cdr.cdr.car, sc)

            def arrow(env, k, dyn):
                def tested(v, m):
                    if one(v) is False:
                        return (rest, env, k, dyn)
                    return (r, env, lambda p, m: self.apply(one(p), [v], k, dyn), dyn)
                return (t, env, tested, dyn)
            return arrow
        body = self.c_seq([self.compile(e, sc) for e in unlst(c.cdr)])
        return lambda env, k, dyn: (t, env, lambda v, m: ((body if one(v) is not False else rest), env, k, dyn), dyn)

    def s_cond(self, f, sc):
        return self.c_clauses(unlst(f.cdr), sc, lambda env, k, dyn: (k, UNSPEC, self))

    def s_case(self, f, sc):
        key = self.compile(f.cdr.car, sc)
        cl = []
        for c in unlst(f.cdr.cdr):
            data = None if self.is_kw(c.car, sc, "else") else [strip(d) for d in unlst(c.car)]
            if self.is_kw(c.cdr.car, sc, "=>"):
                cl.append((data, True, self.compile(c.cdr.cdr.car, sc)))
            else:
                cl.append((data, False, self.c_seq([self.compile(e, sc) for e in unlst(c.cdr)])))

        def node(env, k, dyn):
            def have(v, m):
                v = one(v)
                for data, arrow, n in cl:
                    if data is None or any(eqv(v, d) for d in data):
                        if arrow:
                            return (n, env, lambda p, m: self.apply(one(p), [v], k, dyn), dyn)
                        return (n, env, k, dyn)
                return (k, UNSPEC, self)
            return (key, env, have, dyn)
        return node

    def s_when(self, f, sc, neg=False):
        t = self.compile(f.cdr.car, sc)
        body = self.c_seq([self.compile(e, sc) for e in unlst(f.cdr.cdr)])
        return lambda env, k, dyn: (t, env, lambda v, m: (body, env, k, dyn) if (one(v) is not False) != neg else (k, UNSPEC, self), dyn)

    def s_unless(self, f, sc):
        return self.s_when(f, sc, True)

    def s_do(self, f, sc):
        specs = unlst(f.cdr.car)
        formals(lst([x.car for x in specs]))
        if not all(len(unlst(x)) in (2, 3) for x in specs):
            raise Discard("syntax")
        test = unlst(f.cdr.cdr.car)
        cmds = unlst(f.cdr.cdr.cdr)
        inits = [self.compile(s.cdr.car, sc) for s in specs]
        inner = Scope(sc)
        vs = []
        for s in specs:
            v = Var(base_sym(s.car).name)
            inner.bind(s.car, v)
            vs.append(v)
        steps = [self.compile(s.cdr.cdr.car if s.cdr.cdr is not NIL else s.car, inner) for s in specs]
        t = self.compile(test[0], inner)
        res = self.c_seq([self.compile(e, inner) for e in test[1:]]) if len(test) > 1 else (lambda env, k, dyn: (k, UNSPEC, self))
        body = self.c_seq([self.compile(e, inner) for e in cmds]) if cmds else None

        def node(env, k, dyn):
            def loop(vals):
                e = Env(dict(zip(vs, vals)), env)

                def tested(v, m):
                    if one(v) is not False:
                        return (res, e, k, dyn)
                    nxt = lambda v=None, m=None: self.eval_args(steps, e, dyn, lambda vals: (loop, vals))
                    return (body, e, nxt, dyn) if body else nxt()
                return (t, e, tested, dyn)
            return self.eval_args(inits, env, dyn, lambda vals: (loop, vals))
        return node

    def s_quasiquote(self, f, sc):
        return self.compile(self.qq(f.cdr.car, 1, sc), sc)

    def qq(self, x, d, sc):
        A = lambda n: Alias(S(n), self.scope)
        if isinstance(x, list):
            return lst([A("list->vector"), self.qq(lst(x), d, sc)])
        if not isinstance(x, Pair):
            return lst([A("quote"), x])
        if is_id(x.car) and base_sym(x.car).name == "unquote":
            if d == 1:
                return x.cdr.car
            return lst([A("list"), lst([A("quote"), x.car]), self.qq(x.cdr.car, d - 1, sc)])
        if is_id(x.car) and base_sym(x.car).name == "quasiquote":
            return lst([A("list"), lst([A("quote"), x.car]), self.qq(x.cdr.car, d + 1, sc)])
        if isinstance(x.car, Pair) and is_id(x.car.car) and base_sym(x.car.car).name == "unquote-splicing":
            if d == 1:
                return lst([A("append"), x.car.cdr.car, self.qq(x.cdr, d, sc)])
            inner = lst([A("list"), lst([A("quote"), x.car.car]), self.qq(x.car.cdr.car, d - 1, sc)])
            return lst([A("cons"), inner, self.qq(x.cdr, d, sc)])
        return lst([A("cons"), self.qq(x.car, d, sc), self.qq(x.cdr, d, sc)])

    def s_let_values(self, f, sc, star=False):
        bs, body = bindings2(f.cdr.car), unlst(f.cdr.cdr)
        inner = sc if star else Scope(sc)
        steps = []
        for b in bs:
            node = self.compile(b.cdr.car, inner if star else sc)
            if star:
                inner = Scope(inner)
            ids, rest = formals(b.car)
            vs = []
            for i in ids:
                v = Var(base_sym(i).name)
                inner.bind(i, v)
                vs.append(v)
            rv = None
            if rest is not None:
                rv = Var(base_sym(rest).name)
                inner.bind(rest, rv)
            steps.append((vs, rv, node))
        bn = self.c_body(body, inner)

        def bindings(vs, rv, v):
            vals = v.vals if isinstance(v, Values) else [v]
            if len(vals) < len(vs) or (rv is None and len(vals) != len(vs)):
                raise Discard("wrong number of values")
            d = dict(zip(vs, vals))
            if rv is not None:
                d[rv] = lst(vals[len(vs):])
            return d
        idx = list(range(len(steps)))
        if not star and self.order == "ltr":  # against the order of operands
            idx.reverse()
        elif not star and self.order == "random":
            self.rng.shuffle(idx)

        def node(env, k, dyn):
            def go(i, cur, acc):
                if i == len(steps):
                    return (bn, cur if star else Env(dict(acc), env), k, dyn)
                vs, rv, n = steps[idx[i]]

                def have(v, m):
                    d = bindings(vs, rv, v)
                    return (go, i + 1, Env(d, cur) if star else cur, acc + tuple(d.items()))
                return (n, cur if star else env, have, dyn)
            return (go, 0, env, ())
        return node

    def s_let_star_values(self, f, sc):
        return self.s_let_values(f, sc, True)

    s_let__star_values = s_let_star_values

    def s_receive(self, f, sc):
        return self.s_let_values(Pair(None, Pair(lst([lst([f.cdr.car, f.cdr.cdr.car])]), f.cdr.cdr.cdr)), sc)

    def s_parameterize(self, f, sc):
        bs, body = bindings2(f.cdr.car), unlst(f.cdr.cdr)
        ps = [self.compile(b.car, sc) for b in bs]
        vs = [self.compile(b.cdr.car, sc) for b in bs]
        bn = self.c_body(body, sc)
        n = len(bs)

        def node(env, k, dyn):
            def then(vals):
                params, news = vals[:n], vals[n:]
                if not all(isinstance(p, Param) for p in params):
                    raise Discard("not a parameter")
                if len(set(map(id, params))) != n:
                    raise Discard("same parameter twice")

                def conv(i, acc):
                    if i == n:
                        d = dict(zip(params, acc))
                        return (bn, env, k, Dyn(dyn.winds, dyn.handlers, (d, dyn.params)))
                    j = order[i]
                    if params[j].conv is None:
                        return (conv, i + 1, put(acc, j, news[j]))
                    return self.apply(params[j].conv, [news[j]], lambda v, m: (conv, i + 1, put(acc, j, one(v))), dyn)

                order = list(range(n))
                if self.order == "rtl":
                    order.reverse()
                elif self.order == "random":
                    self.rng.shuffle(order)
                return (conv, 0, tuple([None] * n))
            return self.eval_args(ps + vs, env, dyn, then)
        return node

    def s_guard(self, f, sc):
        var = f.cdr.car.car
        clauses = unlst(f.cdr.car.cdr)
        body = self.c_body(unlst(f.cdr.cdr), sc)
        inner = Scope(sc)
        v = Var(base_sym(var).name)
        inner.bind(var, v)
        RERAISE = object()
        cl = self.c_clauses(clauses, inner, lambda env, k, dyn: (k, RERAISE, self))

        def node(env, k, dyn):
            def handler(m, args, hk, hdyn):
                obj = args[0]

                def in_guard():
                    def result(x, m):
                        if x is RERAISE:
                            # back to the dynamic environment of the raise
                            return self.rewind(dyn, hdyn, lambda: self.do_raise(obj, hk, hdyn, True))
                        return (k, x, self)
                    return (cl, Env({v: obj}, env), result, dyn)
                return self.rewind(hdyn, dyn, in_guard)
            bdyn = Dyn(dyn.winds, (CtlPrim("guard-handler", handler), dyn.handlers), dyn.params)
            return (body, env, k, bdyn)
        return node

    def s_delay(self, f, sc):
        n = self.compile(f.cdr.car, sc)
        # (delay e) = (delay-force (make-promise e))
        def node(env, k, dyn):
            return (k, Promise([[False, ("delay", n, env)]]), self)
        return node

    def s_delay_force(self, f, sc):
        n = self.compile(f.cdr.car, sc)
        return lambda env, k, dyn: (k, Promise([[False, ("delay-force", n, env)]]), self)

    def s_let_syntax(self, f, sc):
        inner = Scope(sc)
        for b in bindings2(f.cdr.car):
            inner.bind(b.car, self.c_macro(b.cdr.car, sc))
        return self.c_body(unlst(f.cdr.cdr), inner)

    def s_letrec_syntax(self, f, sc):
        inner = Scope(sc)
        for b in bindings2(f.cdr.car):
            inner.bind(b.car, self.c_macro(b.cdr.car, inner))
        return self.c_body(unlst(f.cdr.cdr), inner)


HOLDERS = set("cons list vector values set-car! set-cdr! vector-set! list-set! make-list make-vector vector-fill! box set-box! make get put append".split())


class Secondary:
    def __init__(self, obj):
        self.obj = obj


class Uncaught(Exception):
    def __init__(self, obj):
        self.obj = obj


def put(t, i, v):
    return t[:i] + (v,) + t[i + 1:]


def one(v):
    if isinstance(v, Values):
        if len(v.vals) == 1:
            return v.vals[0]
        raise Discard("multiple values to a single-value continuation")
    return v


def formals(p):
    ids = []
    while isinstance(p, Pair):
        ids.append(p.car)
        p = p.cdr
        if len(ids) > 1000:
            raise Discard("cyclic")
    if not all(map(is_id, ids)) or not (p is NIL or is_id(p)):
        raise Discard("syntax")
    if len(set(ids)) != len(ids) or (is_id(p) and p in ids):
        raise Discard("duplicate formals")
    return ids, (p if is_id(p) else None)


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a == b
    if isinstance(a, Char) and isinstance(b, Char):
        return a.c == b.c
    if isinstance(a, (Str, list, bytearray)) and type(a) == type(b):
        raise Discard("eqv? on strings or vectors")
    return False


def equal(a, b, budget=None):
    if budget is None:
        budget = [50000]
    if isinstance(a, Pair) and isinstance(b, Pair):
        while isinstance(a, Pair) and isinstance(b, Pair):
            budget[0] -= 1
            if budget[0] < 0:
                raise Discard("cyclic or huge data")
            if not equal(a.car, b.car, budget):
                return False
            a, b = a.cdr, b.cdr
        return equal(a, b, budget)
    if isinstance(a, Str) and isinstance(b, Str):
        return a.s == b.s
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y, budget) for x, y in zip(a, b))
    if isinstance(a, bytearray) and isinstance(b, bytearray):
        return a == b
    return eqv(a, b)


def reference(text, orders=("rtl", "ltr", "random", "random", "random", "random"), limit=200000):
    """What every conforming implementation must answer: ('V', text) | ('E', None) | None.

    The program is run with several orders of evaluation of operands; if they
    disagree, or the outcome is not prescribed, the answer is None.
    """
    res = None
    for i, o in enumerate(orders):
        try:
            m = Machine(o, limit, i)
            kind, v = m.run(parse(text))
            r = (kind, show(v) if kind == "V" else None)
        except Discard as d:
            return None, str(d)
        except RecursionError:
            return None, "cyclic or deep data"
        except AttributeError:
            return None, "malformed syntax"
        except NoMatch:
            return None, "no matching macro rule"
        if res is None:
            res = r
        elif r != res:
            return None, "depends on order of evaluation"
    return res, (m.steps, m.ev)
