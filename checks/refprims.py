"""Primitive procedures of the reference interpreter."""
from fractions import Fraction
import math
import refint as R
from refint import *


def num(*xs):
    for x in xs:
        if isinstance(x, bool) or not isinstance(x, (int, Fraction)):
            raise Discard("not a number")


def integer(*xs):
    for x in xs:
        if isinstance(x, bool) or not isinstance(x, int):
            raise Discard("not an integer")


def norm(x):
    return int(x) if isinstance(x, Fraction) and x.denominator == 1 else x


def add(*xs):
    num(*xs)
    return norm(sum(xs))


def mul(*xs):
    num(*xs)
    p = 1
    for x in xs:
        p *= x
    if isinstance(p, int) and p.bit_length() > 4000:
        raise Discard("big")
    return norm(p)


def sub(a, *xs):
    num(a, *xs)
    return norm(-a if not xs else a - sum(xs))


def div(a, *xs):
    num(a, *xs)
    if not xs:
        a, xs = 1, (a,)
    for x in xs:
        if x == 0:
            raise prim_error("division by zero")
        a = Fraction(a) / x
    return norm(a)


def cmp(op):
    def f(*xs):
        num(*xs)
        return all(op(a, b) for a, b in zip(xs, xs[1:]))
    return f


def tdiv(a, b, want):
    integer(a, b)
    if b == 0:
        raise prim_error("division by zero")
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return q if want == "q" else a - b * q


def modulo(a, b):
    integer(a, b)
    if b == 0:
        raise prim_error("division by zero")
    return a % b


def pair(x):
    if not isinstance(x, Pair):
        raise Discard("not a pair")
    return x


def cxr(path):
    def f(x):
        for c in reversed(path):
            x = pair(x).car if c == "a" else pair(x).cdr
        return x
    return f


def set_car(p, v):
    pair(p).car = v
    return UNSPEC


def set_cdr(p, v):
    pair(p).cdr = v
    return UNSPEC


def length(x):
    n = 0
    while isinstance(x, Pair):
        n += 1
        x = x.cdr
        if n > 1000000:
            raise Discard("cyclic")
    if x is not NIL:
        raise Discard("improper")
    return n


def append(*ls):
    if not ls:
        return NIL
    out = ls[-1]
    for l in reversed(ls[:-1]):
        out = lst(unlst(l), out)
    return out


def list_tail(l, k):
    integer(k)
    if k < 0:
        raise Discard("negative")
    for _ in range(k):
        l = pair(l).cdr
    return l


def mem(eq):
    def f(x, l):
        n = 0
        while isinstance(l, Pair):
            n += 1
            if n > 50000:
                raise Discard("cyclic")
            if eq(x, l.car):
                return l
            l = l.cdr
        if l is not NIL:
            raise Discard("improper")
        return False
    return f


def ass(eq):
    def f(x, l):
        n = 0
        while isinstance(l, Pair):
            n += 1
            if n > 50000:
                raise Discard("cyclic")
            if eq(x, pair(l.car).car):
                return l.car
            l = l.cdr
        if l is not NIL:
            raise Discard("improper")
        return False
    return f


def eq(a, b):
    if a is b:
        return True
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool) and not isinstance(b, bool):
        if a == b:
            raise Discard("eq? on numbers")
        return False
    if isinstance(a, Char) and isinstance(b, Char):
        if a == b:
            raise Discard("eq? on characters")
        return False
    if isinstance(a, (Prim, Closure)) and isinstance(b, (Prim, Closure)):
        raise Discard("eq? on procedures")
    return False


def vec(v):
    if not isinstance(v, list):
        raise Discard("not a vector")
    return v


def idx(i, n):
    integer(i)
    if not 0 <= i < n:
        raise Discard("index out of range")
    return i


def vector_set(v, i, x):
    vec(v)[idx(i, len(v))] = x
    return UNSPEC


def rng(xs, a, b):
    n = len(xs)
    a = 0 if a is None else a
    b = n if b is None else b
    integer(a, b)
    if not 0 <= a <= b <= n:
        raise Discard("range")
    return xs[a:b]


def strg(s):
    if not isinstance(s, Str):
        raise Discard("not a string")
    return s


def mkstr(chars):
    s = Str("")
    s.s = list(chars)
    return s


def sym(x):
    if not isinstance(x, Sym):
        raise Discard("not a symbol")
    return x


def scmp(op):
    def f(*xs):
        ks = ["".join(strg(x).s) for x in xs]
        return all(op(a, b) for a, b in zip(ks, ks[1:]))
    return f


def string_set(s, i, c):
    strg(s).s[idx(i, len(s.s))] = c.c
    return UNSPEC


def expt(a, b):
    num(a)
    integer(b)
    if b < 0 and a == 0:
        raise Discard("0 to negative")
    if abs(b) > 64:
        raise Discard("big")
    return norm(Fraction(a) ** b)


def box(b):
    if not isinstance(b, Box):
        raise Discard("not a box")
    return b


def set_box(b, v):
    box(b).v = v
    return UNSPEC


def err(e):
    if isinstance(e, Secondary):
        raise Discard("secondary exception object")
    if not isinstance(e, ErrorObject):
        raise Discard("not an error object")
    if e.primitive:
        raise Discard("contents of a primitive error")
    return e


def known_exception(e):
    if isinstance(e, Secondary):
        raise Discard("secondary exception object")
    return e


def list_copy(l):
    xs = []
    while isinstance(l, Pair):
        xs.append(l.car)
        l = l.cdr
        if len(xs) > 50000:
            raise Discard("cyclic")
    return lst(xs, l)


def nonneg(k):
    integer(k)
    if not 0 <= k < 10000:
        raise Discard("size")
    return k


def is_number(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)


def list_set(l, k, v):
    pair(list_tail(l, k)).car = v
    return UNSPEC


def ch(c):
    if not isinstance(c, Char):
        raise Discard("not a char")
    return c


def number_string(x, r=10):
    if r != 10:
        raise Discard("radix")
    num(x)
    return Str(show(x))


def vfill(v, x, a=None, b=None):
    n = len(rng(vec(v), a, b))
    a = a or 0
    v[a:a + n] = [x] * n
    return UNSPEC


def vcopy_to(t, at, f, a=None, b=None):
    part = list(rng(vec(f), a, b))
    vec(t)
    integer(at)
    if at < 0 or at + len(part) > len(t):
        raise Discard("range")
    t[at:at + len(part)] = part
    return UNSPEC


PRIMS = {
    "+": add, "*": mul, "-": sub, "/": div,
    "=": cmp(lambda a, b: a == b), "<": cmp(lambda a, b: a < b), ">": cmp(lambda a, b: a > b),
    "<=": cmp(lambda a, b: a <= b), ">=": cmp(lambda a, b: a >= b),
    "quotient": lambda a, b: tdiv(a, b, "q"), "remainder": lambda a, b: tdiv(a, b, "r"), "modulo": modulo,
    "zero?": lambda x: (num(x), x == 0)[1], "positive?": lambda x: (num(x), x > 0)[1], "negative?": lambda x: (num(x), x < 0)[1],
    "even?": lambda x: (integer(x), x % 2 == 0)[1], "odd?": lambda x: (integer(x), x % 2 == 1)[1],
    "abs": lambda x: (num(x), abs(x))[1],
    "max": lambda *x: (num(*x), max(x))[1], "min": lambda *x: (num(*x), min(x))[1],
    "gcd": lambda *x: (integer(*x), math.gcd(*x))[1], "expt": expt,
    "square": lambda x: mul(x, x), "number->string": number_string,
    "number?": is_number, "integer?": lambda x: isinstance(x, int) and not isinstance(x, bool),
    "exact?": lambda x: (num(x), True)[1],
    "not": lambda x: x is False, "boolean?": lambda x: isinstance(x, bool),
    "eq?": eq, "eqv?": R.eqv, "equal?": R.equal,
    "cons": Pair, "car": cxr("a"), "cdr": cxr("d"), "set-car!": set_car, "set-cdr!": set_cdr,
    "caar": cxr("aa"), "cadr": cxr("ad"), "cdar": cxr("da"), "cddr": cxr("dd"), "caddr": cxr("add"), "cdddr": cxr("ddd"),
    "null?": lambda x: x is NIL, "pair?": lambda x: isinstance(x, Pair),
    "list": lambda *xs: lst(xs), "list?": lambda x: _islist(x), "length": length, "append": append,
    "reverse": lambda l: lst(reversed(unlst(l))), "list-tail": list_tail, "list-ref": lambda l, k: pair(list_tail(l, k)).car,
    "list-set!": list_set, "list-copy": list_copy,
    "make-list": lambda n, x: lst([x] * nonneg(n)),
    "memq": mem(eq), "memv": mem(R.eqv), "member": mem(R.equal), "assq": ass(eq), "assv": ass(R.eqv), "assoc": ass(R.equal),
    "symbol?": lambda x: isinstance(x, Sym), "string?": lambda x: isinstance(x, Str), "char?": lambda x: isinstance(x, Char),
    "vector?": lambda x: isinstance(x, list), "procedure?": is_proc,
    "symbol->string": lambda x: Str(sym(x).name), "string->symbol": lambda s: S("".join(strg(s).s)),
    "symbol=?": lambda *xs: all(sym(a) is sym(xs[0]) for a in xs),
    "vector": lambda *xs: list(xs), "make-vector": lambda n, x: [x] * nonneg(n), "vector-length": lambda v: len(vec(v)),
    "vector-ref": lambda v, i: vec(v)[idx(i, len(v))], "vector-set!": vector_set,
    "vector->list": lambda v, a=None, b=None: lst(rng(vec(v), a, b)), "list->vector": unlst,
    "vector-copy": lambda v, a=None, b=None: list(rng(vec(v), a, b)), "vector-fill!": vfill, "vector-copy!": vcopy_to,
    "vector-append": lambda *vs: [x for v in vs for x in vec(v)],
    "string": lambda *cs: mkstr(ch(c).c for c in cs), "string-length": lambda s: len(strg(s).s),
    "string-ref": lambda s, i: Char(strg(s).s[idx(i, len(s.s))]), "string-set!": string_set,
    "string-append": lambda *ss: mkstr(c for s in ss for c in strg(s).s),
    "substring": lambda s, a, b: mkstr(rng(strg(s).s, a, b)), "string-copy": lambda s, a=None, b=None: mkstr(rng(strg(s).s, a, b)),
    "string->list": lambda s, a=None, b=None: lst(Char(c) for c in rng(strg(s).s, a, b)),
    "list->string": lambda l: mkstr(ch(c).c for c in unlst(l)),
    "string=?": scmp(lambda a, b: a == b), "string<?": scmp(lambda a, b: a < b),
    "make-string": lambda n, c: mkstr(ch(c).c * nonneg(n)),
    "char->integer": lambda c: ord(ch(c).c), "integer->char": lambda n: Char(chr(nonneg(n))),
    "char=?": lambda a, b: ch(a).c == ch(b).c, "char<?": lambda a, b: ch(a).c < ch(b).c,
    "box": Box, "unbox": lambda b: box(b).v, "set-box!": set_box, "box?": lambda b: isinstance(b, Box),
    "error-object?": lambda e: isinstance(known_exception(e), ErrorObject),
    "error-object-message": lambda e: err(e).message, "error-object-irritants": lambda e: err(e).irritants,
    "promise?": lambda x: isinstance(x, Promise),
    "make-promise": lambda x: x if isinstance(x, Promise) else Promise([[True, x]]),
    "boolean=?": lambda a, b: a is b,
    "eof-object": lambda: EOF, "eof-object?": lambda x: x is EOF,
}


def _islist(x):
    n = 0
    while isinstance(x, Pair):
        x = x.cdr
        n += 1
        if n > 100000:
            raise Discard("cyclic")
    return x is NIL


# -- procedures that need the machine -----------------------------------------
def c_apply(m, args, k, dyn):
    f, *rest = args
    return m.apply(f, list(rest[:-1]) + unlst(rest[-1]), k, dyn)


def c_callcc(m, args, k, dyn):
    (f,) = args
    return m.apply(f, [Cont(k, dyn)], k, dyn)


def c_values(m, args, k, dyn):
    return (k, args[0] if len(args) == 1 else Values(list(args)), m)


def c_cwv(m, args, k, dyn):
    p, c = args
    return m.apply(p, [], lambda v, m_: m.apply(c, v.vals if isinstance(v, Values) else [v], k, dyn), dyn)


def c_wind(m, args, k, dyn):
    before, thunk, after = args

    def entered(v, m_):
        w = Wind(before, after, dyn)
        inner = Dyn(w, dyn.handlers, dyn.params)
        return m.apply(thunk, [], lambda v, m_: m.apply(after, [], lambda _, m__: (k, v, m), dyn), inner)
    return m.apply(before, [], entered, dyn)


def c_weh(m, args, k, dyn):
    h, th = args
    if not is_proc(h):
        raise Discard("handler is not a procedure")
    return m.apply(th, [], k, Dyn(dyn.winds, (h, dyn.handlers), dyn.params))


def c_raise(m, args, k, dyn):
    (x,) = args
    return m.do_raise(x, k, dyn, False)


def c_raise_c(m, args, k, dyn):
    (x,) = args
    return m.do_raise(x, k, dyn, True)


def c_error(m, args, k, dyn):
    return m.do_raise(ErrorObject(args[0], lst(args[1:])), k, dyn, False)


def c_force(m, args, k, dyn):
    (p,) = args
    if not isinstance(p, Promise):
        return (k, p, m)
    st = p.box[0]
    if st[0]:
        return (k, st[1], m)
    kind, n, env = st[1]

    def have(v, m_):
        st = p.box[0]
        if st[0]:
            return (k, st[1], m)
        if kind == "delay":
            st[0], st[1] = True, R.one(v)
            return (k, st[1], m)
        v = R.one(v)
        if not isinstance(v, Promise):
            raise Discard("delay-force of a non-promise")
        q = v.box[0]
        st[0], st[1] = q[0], q[1]
        v.box[0] = st
        return (c_force, m, [p], k, dyn)
    return (n, env, have, dyn)


def c_make_parameter(m, args, k, dyn):
    v, *c = args
    if not c:
        return (k, Param(v, None), m)
    return m.apply(c[0], [v], lambda x, m_: (k, Param(R.one(x), c[0]), m), dyn)


def mapper(unpack, pack, order=True):
    def f(m, args, k, dyn):
        g, *seqs = args
        cols = [unpack(s) for s in seqs]
        n = min(map(len, cols))
        rows = list(zip(*cols))[:n]
        idx = list(range(n))
        if order:
            if m.order == "rtl":
                idx.reverse()
            elif m.order == "random":
                m.rng.shuffle(idx)

        def go(i, acc):
            if i == n:
                vals = [None] * n
                a = acc
                while a is not None:
                    vals[a[0]] = a[1]
                    a = a[2]
                return (k, pack(vals), m)
            j = idx[i]
            return m.apply(g, list(rows[j]), lambda v, m_: (go, i + 1, (j, R.one(v), acc)), dyn)
        return (go, 0, None)
    return f


def for_each(unpack):
    def f(m, args, k, dyn):
        g, *seqs = args
        rows = list(zip(*[unpack(s) for s in seqs]))

        def go(i):
            if i == len(rows):
                return (k, UNSPEC, m)
            return m.apply(g, list(rows[i]), lambda v, m_: (go, i + 1), dyn)
        return (go, 0)
    return f


def chars(s):
    return [Char(c) for c in strg(s).s]


def c_member(name, eqp, pick):
    def f(m, args, k, dyn):
        if len(args) == 2:
            return (k, PRIMS[name](*args), m)
        x, l, p = args

        def go(l):
            if not isinstance(l, Pair):
                return (k, False, m)
            item = l.car if name == "member" else pair(l.car).car
            return m.apply(p, [x, item], lambda v, m_: (k, (l if name == "member" else l.car), m) if R.one(v) is not False else (go, l.cdr), dyn)
        return go(l)
    return f


CTL = {
    "apply": c_apply, "call/cc": c_callcc, "call-with-current-continuation": c_callcc, "values": c_values,
    "call-with-values": c_cwv, "dynamic-wind": c_wind, "with-exception-handler": c_weh, "raise": c_raise,
    "raise-continuable": c_raise_c, "error": c_error, "force": c_force, "make-parameter": c_make_parameter,
    "map": mapper(unlst, lst), "for-each": for_each(unlst),
    "vector-map": mapper(vec, list), "vector-for-each": for_each(vec),
    "string-for-each": for_each(chars), "string-map": mapper(chars, lambda cs: mkstr(ch(c).c for c in cs)),
    "member": c_member("member", None, None), "assoc": c_member("assoc", None, None),
}
