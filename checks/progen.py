"""Random Scheme programs.  Loosely typed: the reference interpreter discards
the ones whose behaviour the language does not prescribe."""
import random, sys, os, re
import multiprocessing, resource
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refint as R

DEFS = """(import (srfi 8) (srfi 11) (srfi 16) (srfi 31))
(define %t '())
(define %n 0)
(define (%log x) (set! %t (cons x %t)) x)
(define (%tick) (set! %n (+ %n 1)) %n)
"""
DEFS_REF = "\n".join(DEFS.split("\n")[1:])
# The globals of the programs exist before the program is expanded (see the
# known finding of C16); the reference takes a use before the definition of the
# program for a use of an undefined variable, which is not judged.
GLOBALS = ["g%d" % i for i in range(60)]
DEFS += "\n".join("(define %s #f)" % g for g in GLOBALS) + "\n"


def rename_globals(text):
    names = sorted(set(re.findall(r"\(define \(?([g%][a-z]?\d+(?:_\d+)?)(?=[ )])", text)))
    if len(names) > len(GLOBALS):
        raise RecursionError
    m = dict(zip(names, GLOBALS))
    return re.sub(r"(?<![^\s()'`,@])[g%][a-z]?\d+(?:_\d+)?(?=[\s()]|$)", lambda x: m.get(x.group(0), x.group(0)), text)

NAMES = ["a", "b", "c", "x", "y", "z", "p", "q", "tmp", "loop", "list2", "k"]
SHADOW = ["list", "car", "+", "not", "vector", "else", "=>", "apply", "append", "values", "if", "t", "_", "and", "begin", "define", "lambda", "let", "set!", "letrec", "cond"]


class Gen:
    """Features: a dict production -> weight multiplier."""

    def __init__(self, rng, features=None, size=5, shadow=0.04, setlocal=True, focus=None, pfocus=0.3):
        self.focus, self.pfocus, self.paramobjs = focus or {}, pfocus, []
        self.rng = rng
        self.w = {}
        self.features = features or {}
        self.size = size
        self.shadow = shadow
        self.setlocal = setlocal
        self.logs = 0
        self.globals = []          # (name, type)
        self.uid = 0

    # -- small things --------------------------------------------------------
    def fresh(self, env=None):
        r = self.rng
        if r.random() < self.shadow:
            return r.choice(SHADOW)
        if r.random() < 0.8:
            return r.choice(NAMES)
        self.uid += 1
        return "v%d" % self.uid

    def lit(self, t):
        r = self.rng
        if t == "int":
            return str(r.choice((0, 1, 2, 3, 5, 7, -1, -4, 10, 100)))
        if t == "bool":
            return r.choice(("#t", "#f"))
        if t == "sym":
            return "'" + r.choice(("s", "u", "w", "list", "a"))
        if t == "list":
            return r.choice(("'()", "'(1)", "'(1 2)", "'(3 1 2)", "(list 4 5)", "'(1 (2 3) 4)", "'(a b)"))
        if t == "vec":
            return r.choice(("'#(1 2 3)", "(vector 1 2)", "(make-vector 3 0)", "(vector)"))
        if t == "str":
            return r.choice(('"ab"', '""', '"xyz"', '(string #\\a #\\b)'))
        if t == "proc0":
            return "(lambda () %s)" % self.lit(r.choice(("int", "list", "bool")))
        if t == "proc1":
            return r.choice(("(lambda (x) x)", "list", "not", "(lambda (y) (cons y '()))", "vector"))
        if t == "proc2":
            return r.choice(("cons", "list", "(lambda (x y) y)", "(lambda (x . y) y)", "(lambda z z)"))
        return self.lit(r.choice(("int", "int", "bool", "sym", "list", "str")))

    def var(self, t, env):
        c = []
        seen = set()
        for n, ty in reversed(env):
            if n in seen:
                continue
            seen.add(n)
            if ty.startswith("mac"):
                continue
            if ty == t or t == "any" or (ty == "any" and self.rng.random() < 0.15):
                c.append(n)
        if not c:
            return None
        return self.rng.choice(c[:6])

    def leaf(self, t, env):
        if self.focus and self.rng.random() < 0.3:
            e = self.focused_leaf(t, env)
            if e:
                return e
        if self.rng.random() < 0.7:
            v = self.var(t, env)
            if v:
                return v
        return self.lit(t)

    def focused(self, t, env, d):
        return getattr(self, self.rng.choices(list(self.focus), list(self.focus.values()))[0])(t, env, d - 1)

    def focused_leaf(self, t, env):
        r = self.rng
        names = set(n for n, _ in env)
        ps = [n for n, ty in self.paramobjs if (ty == t or t == "any") and n not in names]
        if ps and r.random() < 0.7:
            return "(%s)" % r.choice(ps)
        if "g_contval" in self.focus:
            seen, ok = set(), []
            for n, ty in reversed(env):
                if n not in seen and ty.startswith("cont-"):
                    ok.append((n, ty[5:]))
                seen.add(n)
            if ok and r.random() < 0.5:
                n, ty = r.choice(ok)
                return "(%s %s)" % (n, self.lit(ty if ty != "any" else self.anytype()))
        if "g_raise" in self.focus and r.random() < 0.25:
            return "(%s %s)" % (r.choice(("raise", "raise", "raise-continuable")), self.lit(r.choice(("int", "sym", "list"))))
        return None

    def anytype(self):
        return self.rng.choice(("int", "int", "int", "list", "list", "bool", "sym", "vec", "str", "proc1", "proc0", "proc2"))

    # -- expressions ------------------------------------------------------------
    def expr(self, t, env, d):
        r = self.rng
        if d <= 0 or r.random() < 0.08:
            return self.leaf(t, env)
        if t == "any":
            t = self.anytype()
        if self.focus and r.random() < self.pfocus:
            e = self.focused(t, env, d)
            if e:
                return e
        k = r.random()
        if k < 0.35:
            e = getattr(self, "t_" + t)(env, d - 1)
            if e:
                return e
        f = self.pick()
        e = f(t, env, d - 1)
        return e if e else self.leaf(t, env)

    GENERIC = dict(g_if=6, g_let=8, g_letstar=4, g_letrec=3, g_named_let=4, g_do=3, g_begin=5, g_cond=4, g_case=3,
                   g_andor=3, g_app=6, g_callvar=7, g_body=5, g_log=5, g_setbang=4, g_apply=3, g_values=4, g_caselambda=3,
                   g_letvalues=3, g_when=2, g_callcc=0, g_wind=0, g_guard=0, g_raise=0, g_weh=0, g_param=0, g_promise=1,
                   g_global=2, g_gset=2, g_hof=3, g_record=0, g_macro=0, g_reenter=0, g_box=1, g_error=0, g_primerr=0,
                   g_gen=0, g_macuse=0, g_letstarvalues=2, g_contval=0, g_quasi=1)

    def pick(self):
        if not self.w:
            for n, w in self.GENERIC.items():
                w = self.features.get(n, w)
                if w:
                    self.w[n] = w
            self.names = list(self.w)
            self.weights = list(self.w.values())
        return getattr(self, self.rng.choices(self.names, self.weights)[0])

    def body(self, t, env, d):
        """Text of a body (one or more forms)."""
        r = self.rng
        if d > 0 and r.random() < 0.25:
            return self.defbody(t, env, d)
        n = r.choice((0, 0, 0, 1, 1, 2))
        return " ".join([self.effect(env, d - 1) for _ in range(n)] + [self.expr(t, env, d)])

    def defbody(self, t, env, d):
        r = self.rng
        n = r.choice((1, 1, 2, 3))
        names = []
        while len(names) < n:
            x = self.fresh()
            if x not in names and x not in SHADOW:
                names.append(x)
        out = []
        env2 = list(env)
        types = []
        for x in names:
            types.append(r.choice(("int", "list", "proc1", "proc0", "proc2", "any")))
        penv = env2 + [(x, ty) for x, ty in zip(names, types) if ty.startswith("proc")]
        hidden = [(x, "?") for x in names]
        done = []
        for x, ty in zip(names, types):
            if ty.startswith("proc") and r.random() < 0.8:
                ps = self.params(int(ty[4]))
                out.append("(define (%s %s) %s)" % (x, ps[0], self.body("any", penv + [(y, z) for y, z in ps[1]], d - 1)) if r.random() < 0.9 else
                           "(define %s (lambda (%s) %s))" % (x, ps[0], self.body("any", penv + ps[1], d - 1)))
            elif r.random() < 0.12:
                y, z = x, self.fresh()
                if z in names or z in SHADOW:
                    out.append("(define %s %s)" % (x, self.expr(ty, env2 + hidden + done, d - 1)))
                else:
                    out.append("(define-values (%s %s) (values %s %s))" % (y, z, self.expr(ty, env2 + hidden + done, d - 1), self.expr("int", env2 + hidden + done, d - 1)))
                    done.append((z, "int"))
            else:
                out.append("(define %s %s)" % (x, self.expr(ty, env2 + hidden + done, d - 1)))
            done.append((x, ty))
        env2 += done
        for _ in range(r.choice((0, 0, 1))):
            out.append(self.effect(env2, d - 1))
        out.append(self.expr(t, env2, d))
        return " ".join(out)

    def params(self, n):
        """(text, [(name, type)]) of a parameter list accepting n arguments."""
        r = self.rng
        names = []
        while len(names) < n + 1:
            x = self.fresh()
            if x not in names:
                names.append(x)
        k = r.random()
        if k < 0.75:
            ns = names[:n]
            return " ".join(ns), [(x, r.choice(("int", "any"))) for x in ns]
        if n >= 1 and k < 0.9:
            ns = names[:n]
            return " ".join(ns[:-1]) + (" . " if n > 1 else "") + ns[-1] if n > 1 else ns[0] + " . " + names[n], [(x, "any") for x in ns[:-1]] + [(ns[-1], "list" if n > 1 else "any")] + ([(names[n], "list")] if n == 1 else [])
        return " ".join(names[:n] + [".", names[n]]) if n else names[0], [(x, "any") for x in names[:n]] + [(names[n] if n else names[0], "list")]

    def effect(self, env, d):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return self.log(self.expr("int", env, d))
        if k < 0.6 and self.setlocal:
            e = self.setvar(env, d)
            if e:
                return e
        if k < 0.72 and self.globals:
            return self.gset(env, d)
        if k < 0.8:
            return "(%s %s %s)" % (r.choice(("when", "unless")), self.expr("bool", env, d - 1), self.effect(env, d - 1))
        return self.expr("any", env, d)

    def setvar(self, env, d):
        c = []
        seen = set()
        for n, ty in reversed(env):
            if n not in seen and ty != "?" and n not in SHADOW and n[0] != "$" and not ty.startswith("mac"):
                c.append((n, ty))
            seen.add(n)
        if not c:
            return None
        n, ty = self.rng.choice(c[:6])
        return "(set! %s %s)" % (n, self.expr(ty, env, d - 1))

    def gset(self, env, d):
        n, ty = self.rng.choice(self.globals)
        if any(x == n for x, _ in env):
            return self.log("1")
        return "(set! %s %s)" % (n, self.expr(ty, env, d - 1))

    def log(self, e):
        return "(%%log %s)" % e

    # typed -----------------------------------------------------------------
    def t_int(self, env, d):
        r = self.rng
        k = r.randrange(9)
        E = lambda t: self.expr(t, env, d)
        if k < 3:
            return "(%s %s %s)" % (r.choice("+-*+-"), E("int"), E("int"))
        if k == 3:
            return "(+ %s)" % " ".join(E("int") for _ in range(r.randrange(4)))
        if k == 4:
            return "(length %s)" % E("list")
        if k == 5:
            return "(%s %s %s)" % (r.choice(("quotient", "remainder", "modulo", "max", "min")), E("int"), r.choice(("2", "3", "-5", "7")))
        if k == 6:
            return "(vector-length %s)" % E("vec")
        if k == 7:
            return "(string-length %s)" % E("str")
        return "(let ((l %s)) (if (and (pair? l) (number? (car l))) (car l) 0))" % E("list")

    def t_bool(self, env, d):
        r = self.rng
        E = lambda t: self.expr(t, env, d)
        k = r.randrange(7)
        if k < 2:
            return "(%s %s %s)" % (r.choice(("=", "<", ">", "<=", ">=")), E("int"), E("int"))
        if k == 2:
            return "(%s %s)" % (r.choice(("null?", "pair?", "number?", "procedure?", "symbol?", "vector?", "boolean?", "string?", "list?")), E("any"))
        if k == 3:
            return "(not %s)" % E("any")
        if k == 4:
            return "(equal? %s %s)" % (E("list"), E("list"))
        if k == 5:
            return "(eq? %s %s)" % (E("sym"), E("sym"))
        return "(%s %s)" % (r.choice(("zero?", "positive?", "negative?", "even?", "odd?")), E("int"))

    def t_sym(self, env, d):
        return "(if %s %s %s)" % (self.expr("bool", env, d), self.leaf("sym", env), self.leaf("sym", env))

    def t_list(self, env, d):
        r = self.rng
        E = lambda t: self.expr(t, env, d)
        k = r.randrange(12)
        if k < 3:
            return "(list %s)" % " ".join(E("any") for _ in range(r.randrange(4)))
        if k == 3:
            return "(cons %s %s)" % (E("any"), E("list"))
        if k == 4:
            return "(append %s %s)" % (E("list"), E("list"))
        if k == 5:
            return "(reverse %s)" % E("list")
        if k == 6:
            return "(map %s %s)" % (E("proc1"), E("list"))
        if k == 7:
            return "(vector->list %s)" % E("vec")
        if k == 8:
            return "(let ((l %s)) (if (pair? l) (cdr l) l))" % E("list")
        return self.quasi(env, d)

    def g_quasi(self, t, env, d):
        return self.quasi(env, d) if t in ("list", "any") else None

    def quasi(self, env, d):
        r = self.rng

        def q(dep, lvl):
            k = r.random()
            if dep == 0 or k < 0.15:
                return r.choice(("1", "a", "b", "()", "2", '"s"', "#t"))
            if k < 0.5:
                if lvl == 1:
                    return "," + self.expr("any", env, d - 1)
                return "," + q(dep - 1, lvl - 1)
            if k < 0.6 and lvl < 3:
                return "`" + q(dep - 1, lvl + 1)
            if k < (0.68 if lvl == 1 else 0.8):
                return "#(%s)" % " ".join(elems(dep, lvl))
            el = elems(dep, lvl)
            if r.random() < 0.12 and el:
                return "(%s . %s)" % (" ".join(el), q(dep - 1, lvl) if r.random() < 0.5 else "z")
            return "(%s)" % " ".join(el)

        def elems(dep, lvl):
            out = []
            for _ in range(r.randrange(4)):
                if lvl == 1 and r.random() < 0.25:
                    out.append(",@" + self.expr("list", env, d - 1))
                else:
                    out.append(q(dep - 1, lvl))
            return out
        return ("`(1 %s)" if r.random() < 0.8 else "`#(%s)") % " ".join(elems(r.choice((2, 3, 4)), 1))

    def t_vec(self, env, d):
        r = self.rng
        E = lambda t: self.expr(t, env, d)
        k = r.randrange(4)
        if k == 0:
            return "(vector %s)" % " ".join(E("any") for _ in range(r.randrange(4)))
        if k == 1:
            return "(list->vector %s)" % E("list")
        if k == 2:
            return "(vector-map %s %s)" % (E("proc1"), E("vec"))
        return "(let ((v (vector %s %s))) (vector-set! v %d %s) v)" % (E("any"), E("any"), r.randrange(2), E("any"))

    def t_str(self, env, d):
        return "(string-append %s %s)" % (self.expr("str", env, d), self.expr("str", env, d))

    def lam(self, n, t, env, d):
        ps, pe = self.params(n)
        if n == 0 and self.rng.random() < 0.9:
            return "(lambda () %s)" % self.body(t, env, d)
        if " " not in ps and pe and pe[-1][1] == "list" and len(pe) == 1:
            return "(lambda %s %s)" % (ps, self.body(t, env + pe, d))
        return "(lambda (%s) %s)" % (ps, self.body(t, env + pe, d))

    def t_proc0(self, env, d):
        return self.lam(0, "any", env, d)

    def t_proc1(self, env, d):
        return self.lam(1, self.rng.choice(("any", "int")), env, d)

    def t_proc2(self, env, d):
        return self.lam(2, self.rng.choice(("any", "int")), env, d)

    # generic -----------------------------------------------------------------
    def g_if(self, t, env, d):
        return "(if %s %s %s)" % (self.expr("bool", env, d), self.expr(t, env, d), self.expr(t, env, d))

    def binds(self, n, env, d, seq=False):
        r = self.rng
        names = []
        while len(names) < n:
            x = self.fresh()
            if seq or x not in names:
                names.append(x)
        types = [self.anytype() for _ in names]
        txt = []
        e = list(env)
        for x, ty in zip(names, types):
            txt.append("(%s %s)" % (x, self.expr(ty, e, d)))
            if seq:
                e.append((x, ty))
        if not seq:
            e += list(zip(names, types))
        return " ".join(txt), e

    def g_let(self, t, env, d):
        b, e = self.binds(self.rng.choice((0, 1, 1, 1, 2, 2, 3)), env, d)
        return "(let (%s) %s)" % (b, self.body(t, e, d))

    def g_letstar(self, t, env, d):
        b, e = self.binds(self.rng.choice((0, 1, 2, 2, 3)), env, d, True)
        return "(let* (%s) %s)" % (b, self.body(t, e, d))

    def g_letrec(self, t, env, d):
        r = self.rng
        n = r.choice((1, 2, 2))
        names = []
        while len(names) < n:
            x = self.fresh()
            if x not in names and x not in ("define", "begin", "lambda", "set!", "let", "letrec"):
                names.append(x)
        types = [r.choice(("proc0", "proc1", "proc2")) for _ in names]
        e = env + list(zip(names, types))
        b = " ".join("(%s %s)" % (x, self.lam(int(ty[4]), "any", e, d)) for x, ty in zip(names, types))
        return "(%s (%s) %s)" % (r.choice(("letrec", "letrec*")), b, self.body(t, e, d))

    def g_named_let(self, t, env, d):
        r = self.rng
        f = self.fresh()
        i = r.choice(("i", "n", "j"))
        acc = self.fresh()
        if f in (i, acc) or i == acc:
            return None
        lim = r.randrange(1, 5)
        e = env + [(f, "?"), (i, "int"), (acc, t)]
        k = r.random()
        if k < 0.6:
            return "(let %s ((%s 0) (%s %s)) (if (< %s %d) (%s (+ %s 1) %s) %s))" % (
                f, i, acc, self.expr(t, env, d), i, lim, f, i, self.expr(t, e, d), self.body(t, e, d) if " " not in (b := self.expr(t, e, d - 1)) else b)
        return "(let %s ((%s %d)) (if (= %s 0) %s (let ((%s (%s (- %s 1)))) %s)))" % (
            f, i, lim, i, self.expr(t, env + [(f, "?"), (i, "int")], d), acc, f, i, self.body(t, e, d))

    def g_do(self, t, env, d):
        r = self.rng
        i = r.choice(("i", "n", "j"))
        acc = self.fresh()
        if acc == i:
            return None
        e = env + [(i, "int"), (acc, t)]
        step = self.expr(t, e, d) if r.random() < 0.8 else None
        body = self.effect(e, d - 1) if r.random() < 0.5 else ""
        return "(do ((%s 0 (+ %s 1)) (%s %s%s)) ((= %s %d) %s) %s)" % (
            i, i, acc, self.expr(t, env, d), " " + step if step else "", i, r.randrange(4), self.body(t, e, d - 1) if r.random() < 0.2 and False else self.expr(t, e, d), body)

    def g_begin(self, t, env, d):
        return "(begin %s %s)" % (self.effect(env, d), self.expr(t, env, d))

    def g_cond(self, t, env, d):
        r = self.rng
        cl = []
        for _ in range(r.choice((1, 1, 2))):
            k = r.random()
            if k < 0.6:
                cl.append("(%s %s)" % (self.expr("bool", env, d), self.body(t, env, d).replace("(define", "(%nodefine")))
            elif k < 0.8:
                x = self.fresh()
                cl.append("(%s => (lambda (%s) %s))" % (self.expr("any", env, d), x, self.body(t, env + [(x, "any")], d)))
            elif t in ("any", "bool"):
                cl.append("(%s)" % self.expr(t, env, d))
        cl = [c for c in cl if "%nodefine" not in c]
        cl.append("(else %s)" % self.expr(t, env, d))
        return "(cond %s)" % " ".join(cl)

    def g_case(self, t, env, d):
        r = self.rng
        keys = ["0", "1", "2", "3", "a", "s", "-1", "#t", "()", "5", "#\\x"]
        r.shuffle(keys)
        cl = []
        for _ in range(r.choice((1, 2, 3))):
            n = r.choice((0, 1, 2, 3))
            ks, keys = keys[:n], keys[n:]
            if r.random() < 0.2:
                x = self.fresh()
                cl.append("((%s) => (lambda (%s) %s))" % (" ".join(ks), x, self.expr(t, env + [(x, "any")], d)))
            else:
                cl.append("((%s) %s)" % (" ".join(ks), self.expr(t, env, d)))
        if r.random() < 0.85:
            cl.append("(else %s)" % self.expr(t, env, d))
        else:
            x = self.fresh()
            cl.append("(else => (lambda (%s) %s))" % (x, self.expr(t, env + [(x, "any")], d)))
        return "(case %s %s)" % (self.expr(r.choice(("int", "sym", "any")), env, d), " ".join(cl))

    def g_andor(self, t, env, d):
        r = self.rng
        vs = [n for n, ty in env if ty == t or t == "any"]
        if vs and r.random() < 0.4:
            return r.choice(("(and #t %s)", "(or #f %s)", "(and %s)", "(or %s)", "(let () %s)", "(begin %s)", "(let* () %s)", "(cond (else %s))",
                             "(when #t %s)", "(unless #f %s)", "(case 1 ((1) %s))", "(letrec () %s)", "(let-values () %s)", "(cond (#f 0) (#t %s))")) % r.choice(vs)
        if r.random() < 0.5:
            return "(or %s %s)" % (r.choice(("#f", "(and %s #f)" % self.effect(env, d - 1), "(not %s)" % self.lit("int"))), self.expr(t, env, d))
        return "(if (and %s) %s %s)" % (" ".join(self.expr("bool", env, d) for _ in range(r.randrange(4))), self.expr(t, env, d), self.expr(t, env, d))

    def g_app(self, t, env, d):
        n = self.rng.randrange(0, 4)
        ps, pe = self.params(n)
        args = " ".join(self.expr(ty if ty != "list" else "any", env, d) for ty in [x[1] for x in pe][:n] + ["any"] * (n - len(pe)))
        extra = ""
        if pe and pe[-1][1] == "list" and self.rng.random() < 0.6:
            extra = " " + " ".join(self.expr("int", env, d) for _ in range(self.rng.randrange(3)))
        if n == 0 and not pe:
            return "((lambda () %s))" % self.body(t, env, d)
        f = "(lambda %s %s)" % (ps if n == 0 else "(%s)" % ps, self.body(t, env + pe, d))
        return "(%s %s%s)" % (f, args, extra)

    def g_callvar(self, t, env, d):
        r = self.rng
        ty = r.choice(("proc0", "proc1", "proc1", "proc2"))
        v = self.var(ty, env)
        if not v:
            return None
        e = "(%s%s)" % (v, "".join(" " + self.expr("int" if r.random() < 0.7 else "any", env, d) for _ in range(int(ty[4]))))
        if t == "any":
            return e
        # coerce
        test = {"int": "number?", "bool": "boolean?", "sym": "symbol?", "list": "list?", "vec": "vector?", "str": "string?"}.get(t)
        if test is None:
            return None
        return "(let ((r %s)) (if (%s r) r %s))" % (e, test, self.leaf(t, env))

    def g_body(self, t, env, d):
        return "(let () %s)" % self.defbody(t, env, d)

    def g_log(self, t, env, d):
        if t == "int":
            return self.log(self.expr("int", env, d))
        return "(begin %s %s)" % (self.log(self.expr("int", env, d - 1)), self.expr(t, env, d))

    def g_setbang(self, t, env, d):
        if not self.setlocal:
            return None
        s = self.setvar(env, d)
        return "(begin %s %s)" % (s, self.expr(t, env, d)) if s else None

    def g_apply(self, t, env, d):
        r = self.rng
        if t == "int":
            return "(apply %s %s%s)" % (r.choice(("+", "max 1", "*", "- 5")), self.expr("int", env, d) + " " if r.random() < 0.5 else "", r.choice(("'()", "'(1 2)", "(list %s)" % self.expr("int", env, d))))
        if t == "list":
            return "(apply list %s %s)" % (self.expr("any", env, d), self.expr("list", env, d))
        n = r.randrange(0, 3)
        return "(apply %s (list %s))" % (self.lam(n, t, env, d), " ".join(self.expr("int", env, d) for _ in range(n)))

    def g_values(self, t, env, d):
        n = self.rng.choice((0, 1, 2, 2, 3))
        return "(call-with-values (lambda () (values %s)) %s)" % (" ".join(self.expr("int", env, d) for _ in range(n)), self.lam(n, t, env, d))

    def mv(self, env, d):
        n = self.rng.choice((0, 1, 2, 2, 3))
        types = [self.anytype() for _ in range(n)]
        e = "(values %s)" % " ".join(self.expr(ty, env, d) for ty in types)
        if self.rng.random() < 0.3:
            e = "(begin %s %s)" % (self.effect(env, d - 1), e)
        return types, e

    def mvformals(self, types, names):
        r = self.rng
        ns = []
        while len(ns) < len(types) + 1:
            x = self.fresh()
            if x not in ns and x not in names:
                ns.append(x)
        n = len(types)
        if r.random() < 0.7:
            return "(%s)" % " ".join(ns[:n]), list(zip(ns, types)), ns[:n]
        k = r.randrange(n + 1)
        if k == 0:
            return ns[0], [(ns[0], "list")], ns[:1]
        return "(%s . %s)" % (" ".join(ns[:k]), ns[k]), list(zip(ns[:k], types)) + [(ns[k], "list")], ns[:k + 1]

    def g_letvalues(self, t, env, d):
        r = self.rng
        if r.random() < 0.3:
            types, e = self.mv(env, d)
            f, pe, _ = self.mvformals(types, [])
            return "(receive %s %s %s)" % (f, e, self.body(t, env + pe, d))
        bs, pe, names = [], [], []
        for _ in range(r.choice((1, 2, 2))):
            types, e = self.mv(env, d - 1)
            f, p, ns = self.mvformals(types, names)
            bs.append("(%s %s)" % (f, e))
            pe += p
            names += ns
        return "(let-values (%s) %s)" % (" ".join(bs), self.body(t, env + pe, d))

    def g_letstarvalues(self, t, env, d):
        bs = []
        e2 = list(env)
        for _ in range(self.rng.choice((1, 2, 2))):
            types, e = self.mv(e2, d - 1)
            f, p, ns = self.mvformals(types, [])
            bs.append("(%s %s)" % (f, e))
            e2 += p
        return "(let*-values (%s) %s)" % (" ".join(bs), self.body(t, e2, d))

    def g_caselambda(self, t, env, d):
        r = self.rng
        arities = r.sample((0, 1, 2, 3), r.choice((1, 2, 3)))
        cl = []
        for n in arities:
            ps, pe = self.params(n)
            if n == 0 and pe:
                ps, pe = "", []
            cl.append("((%s) %s)" % (ps, self.body(t, env + pe, d - 1)))
        if r.random() < 0.3:
            x = self.fresh()
            cl.append("(%s %s)" % (x, self.body(t, env + [(x, "list")], d - 1)))
        n = r.choice(arities)
        return "((case-lambda %s) %s)" % (" ".join(cl), " ".join(self.expr("int", env, d) for _ in range(n)))

    def g_when(self, t, env, d):
        return "(let ((w (%s %s %s %s))) %s)" % (self.rng.choice(("when #t", "unless #f")), self.effect(env, d - 1), self.effect(env, d - 1), self.expr(t, env, d), "w")

    def g_promise(self, t, env, d):
        r = self.rng
        x = self.fresh()
        k = r.random()
        p = "(delay %s)" % self.expr(t, env, d) if k < 0.6 else "(delay-force (delay %s))" % self.expr(t, env, d) if k < 0.8 else "(make-promise %s)" % self.expr(t, env, d)
        if r.random() < 0.5:
            return "(let ((%s %s)) (begin (force %s) (force %s)))" % (x, p, x, x)
        return "(force %s)" % p

    def g_global(self, t, env, d):
        c = [n for n, ty in self.globals if ty == t and not any(x == n for x, _ in env)]
        return self.rng.choice(c) if c else None

    def g_gset(self, t, env, d):
        if not self.globals:
            return None
        return "(begin %s %s)" % (self.gset(env, d), self.expr(t, env, d))

    def g_hof(self, t, env, d):
        r = self.rng
        E = lambda ty: self.expr(ty, env, d)
        k = r.randrange(5)
        x, y = "x", r.choice(("y", "acc"))
        if k == 0:
            return "(begin (for-each (lambda (%s) %s) %s) %s)" % (x, self.effect(env + [(x, "any")], d), E("list"), E(t))
        if t == "list":
            if k == 1:
                return "(map (lambda (%s %s) %s) %s %s)" % (x, y, self.expr("any", env + [(x, "any"), (y, "any")], d), E("list"), E("list"))
            return "(map %s %s)" % (self.lam(1, "any", env, d), E("list"))
        if k == 2:
            return "(call-with-values (lambda () (apply values %s)) (lambda r %s))" % (E("list"), self.expr(t, env + [("r", "list")], d))
        if k == 3:
            return "(let ((v %s)) (vector-for-each (lambda (%s) %s) v) %s)" % (E("vec"), x, self.effect(env + [(x, "any"), ("v", "vec")], d), self.expr(t, env + [("v", "vec")], d))
        return None

    def g_box(self, t, env, d):
        x = self.fresh()
        return "(let ((%s (vector %s))) (vector-set! %s 0 %s) %s (vector-ref %s 0))" % (x, self.expr(t, env, d), x, self.expr(t, env + [(x, "vec")], d - 1), self.effect(env + [(x, "?")], d - 1), x)

    # macros --------------------------------------------------------------------
    def transformer(self, env, d, t, self_name=None):
        """(text of a syntax-rules transformer, env type of its keyword)"""
        r = self.rng
        k = r.random()
        tmp = r.choice(NAMES[:9] + ["t"])
        ell = r.choice(("...", "...", "...", ":::"))
        pre = "(syntax-rules %s" % ("::: " if ell == ":::" else "")
        if k < 0.45:      # a random expression around the operands
            n = r.choice((0, 1, 1, 2, 3))
            ps = ["$%d" % i for i in range(n)]
            return "%s() ((_%s) %s))" % (pre, "".join(" " + p for p in ps), self.expr(t, env + [(p, "int") for p in ps], d)), "mac:%d:%s" % (n, t)
        if k < 0.7:       # binds a variable of the use around an operand of the use
            e = self.expr("int", env + [("$e", "int")], d - 1)
            e2 = self.expr("int", env + [("$e", "int"), (tmp, "int")], d - 1)
            form = r.choice(("(let ((TMP E)) (let (($n E2)) (list TMP $b)))", "(let ((TMP E)) ((lambda ($n TMP) (list TMP $b $n)) E2 TMP))",
                             "(let loop (($n 2) (TMP '())) (if (= $n 0) TMP (loop (- $n 1) (cons $b TMP))))", "(do (($n 0 (+ $n 1)) (TMP '() (cons $b TMP))) ((= $n 2) TMP))",
                             "(let-values (((TMP $n) (values E $e))) (list $b TMP))", "(letrec ((TMP (lambda ($n) $b))) (list (TMP $e) (TMP E)))",
                             "(let () (define TMP $e) (define ($n2 $n) $b) (list TMP ($n2 E)))" if False else "(let () (define TMP $e) (define (f $n) $b) (list TMP (f E)))",
                             "(call-with-values (lambda () (values $e E)) (lambda ($n . TMP) (cons $b TMP)))", "(let* ((TMP E) ($n TMP) (TMP $e)) (list $b TMP))",
                             "(case-lambda (($n) $b))" if False else "((case-lambda (($n) $b) ((TMP $n) (list TMP $b))) E $e)"))
            return "%s() ((_ $n $e $b) %s))" % (pre, form.replace("E2", e2).replace("$e", "$~").replace("E", e).replace("$~", "$e").replace("TMP", tmp)), "macb"
        if k < 0.85:      # any number of operands
            form = r.choice(("(list $e ELL)", "(let ((TMP 0)) (list (begin (set! TMP (+ TMP 1)) $e) ELL))", "(+ $e ELL)", "(vector-length (vector $e ELL))",
                             "(let ((TMP (lambda x x))) (TMP $e ELL))", "(append (list $e) ELL '())"))
            return "%s() ((_ $e %s) %s))" % (pre, ell, form.replace("ELL", ell).replace("TMP", tmp)), "mace"
        if k < 0.93:      # literals
            lit = r.choice(("else", "=>", tmp, "list"))
            return "%s(%s) ((_ %s $e) (list 'lit $e)) ((_ $x $e) (list 'other $e)))" % (pre, lit, lit), "macl:" + lit
        # recursion over the operands
        if self_name:
            form = r.choice(("((_) #f) ((_ $e) $e) ((_ $e $r ELL) (let ((TMP $e)) (if TMP (list TMP (M $r ELL)) TMP)))",
                             "((_) '()) ((_ $e $r ELL) (cons $e (M $r ELL)))", "((_ () $a) (list . $a)) ((_ ($e $r ELL) ($a ELL)) (M ($r ELL) ($a ELL TMP $e)))" if False else
                             "((_) 0) ((_ $e $r ELL) (let ((TMP $e)) (let (($q (M $r ELL))) (list TMP $q))))"))
            return "%s() %s)" % (pre, form.replace("ELL", ell).replace("TMP", tmp).replace("M", self_name) if "M" not in tmp else ""), "mace"
        return self.transformer(env, d, t)

    def macuse(self, name, ty, env, d):
        r = self.rng
        if ty == "macb":
            v = self.fresh()
            return "(%s %s %s %s)" % (name, v, self.expr("int", env, d), self.expr(r.choice(("int", "any")), env + [(v, "int")], d))
        if ty == "mace":
            return "(%s%s)" % (name, "".join(" " + self.expr("int", env, d - 1) for _ in range(r.randrange(4))))
        if ty.startswith("macl:"):
            return "(%s %s %s)" % (name, r.choice((ty[5:], ty[5:], "x", "(1)", "else", "list")), self.expr("int", env, d))
        n = int(ty.split(":")[1])
        return "(%s%s)" % (name, "".join(" " + self.expr("int", env, d - 1) for _ in range(n)))

    def g_macuse(self, t, env, d):
        seen, ok = set(), []
        for n, ty in reversed(env):
            if n not in seen and ty.startswith("mac"):
                ok.append((n, ty))
            seen.add(n)
        if not ok:
            return None
        n, ty = self.rng.choice(ok[:4])
        u = self.macuse(n, ty, env, d)
        if ty.startswith("mac:") and ty.split(":")[2] == t or t == "list" and ty in ("macb", "mace"):
            return u
        v = self.fresh()
        e = [(v, ty.split(":")[2] if ty.startswith("mac:") else "any")]
        return "(let ((%s %s)) %s)" % (v, u, self.expr(t, env + e, d))

    def g_macro(self, t, env, d):
        r = self.rng
        kind = r.choice(("let-syntax", "let-syntax", "letrec-syntax", "define-syntax", "define-syntax", "define-syntax2"))
        specs = []
        names = []
        for _ in range(r.choice((1, 1, 2))):
            n = r.choice(("m", "m2", "my-mac", "x", "tmp", "loop", "a", "p"))
            if n not in names:
                names.append(n)
        e = list(env)
        if kind != "let-syntax":
            # keywords of this contour are hidden while the templates are made, except by the rules of letrec-syntax below
            e = [(a, b) for a, b in env if a not in names]
        for n in names:
            tr, ty = self.transformer(e, d - 1, r.choice((t, "int", "list")), n if kind != "let-syntax" else None)
            specs.append((n, tr, ty))
            if kind == "define-syntax2":
                e = e + [(n, ty)]
        inner = [(a, b) for a, b in env if a not in names] + [(n, ty) for n, tr, ty in specs]
        if kind.startswith("define"):
            defs = " ".join("(define-syntax %s %s)" % (n, tr) for n, tr, ty in specs)
            if r.random() < 0.5:
                v = r.choice([x for x in NAMES if x not in names])
                pos = r.random() < 0.5
                df = "(define %s %s)" % (v, self.expr("int", [(a, "?" if a == v else b) for a, b in inner], d - 1))
                return "(let () %s %s)" % ((df + " " + defs) if pos else (defs + " " + df), self.forced_use(t, inner + [(v, "int")], d))
            return "(let () %s %s)" % (defs, self.forced_use(t, inner, d))
        return "(%s (%s) %s)" % (kind, " ".join("(%s %s)" % (n, tr) for n, tr, ty in specs), self.forced_use(t, inner, d))

    def forced_use(self, t, env, d):
        """A use of a macro, mostly inside binding forms that may capture."""
        r = self.rng
        k = r.random()
        if k < 0.25:
            return self.g_macuse(t, env, d) or self.expr(t, env, d)
        if k < 0.6:
            b, e = self.binds(r.choice((1, 1, 2)), env, d)
            return "(let (%s) %s)" % (b, self.g_macuse(t, e, d) or self.expr(t, e, d))
        if k < 0.75:
            v = self.fresh()
            return "((lambda (%s) %s) %s)" % (v, self.g_macuse(t, env + [(v, "int")], d) or self.expr(t, env, d), self.expr("int", env, d))
        return self.body(t, env, d)

    # control -------------------------------------------------------------------
    def g_callcc(self, t, env, d):
        """Escapes."""
        r = self.rng
        k = self.fresh()
        e = env + [(k, "cont-" + t)]
        if self.focus and r.random() < 0.6:
            v = self.fresh()
            body = "(let ((%s %s)) (%s %s))" % (v, self.expr("any", e, d), k, self.expr(t, e, d - 1)) if v != k and k not in SHADOW else self.body(t, e, d)
        else:
            body = self.body(t, e, d)
        return "(%s (lambda (%s) %s))" % (r.choice(("call/cc", "call-with-current-continuation")), k, body)

    def g_contval(self, t, env, d):
        """Throw to some continuation in scope."""
        c = [(n, ty) for n, ty in env if ty.startswith("cont-")]
        c = [x for i, x in enumerate(c)]
        seen, ok = set(), []
        for n, ty in reversed(env):
            if n not in seen and ty.startswith("cont-"):
                ok.append((n, ty[5:]))
            seen.add(n)
        if not ok:
            return None
        n, ty = self.rng.choice(ok)
        call = "(%s %s)" % (n, self.expr(ty, env, d))
        if self.rng.random() < 0.5:
            return "(if %s %s %s)" % (self.expr("bool", env, d), call, self.expr(t, env, d))
        return "(begin %s %s)" % (call, self.leaf(t, env))

    def g_wind(self, t, env, d):
        r = self.rng
        a, b = r.randrange(100, 1000), r.randrange(100, 1000)
        pre = "(%%log %d)" % a if r.random() < 0.8 else self.effect(env, d - 1)
        post = "(%%log %d)" % b if r.random() < 0.8 else self.effect(env, d - 1)
        return "(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))" % (pre, self.body(t, env, d), post)

    def g_reenter(self, t, env, d):
        """Capture a continuation and re-enter it a bounded number of times."""
        r = self.rng
        k, n = self.fresh(), r.randrange(1, 3)
        c = "%%c%d" % r.randrange(10 ** 9)
        self.extra_globals.append("(define %s 0)" % c)
        g = "%%k%d" % r.randrange(10 ** 9)
        self.extra_globals.append("(define %s #f)" % g)
        v = self.fresh()
        return ("(let ((%s (call/cc (lambda (%s) (set! %s %s) %s)))) %s (if (< %s %d) (begin (set! %s (+ %s 1)) (%s %s)) %s))" %
                (v, k, g, k, self.expr(t, env + [(k, "?")], d), self.effect(env + [(v, t)], d), c, n, c, c, g, self.expr(t, env + [(v, t)], d - 1), self.expr(t, env + [(v, t)], d)))

    def g_gen(self, t, env, d):
        """Generator: coroutine between a producer and a consumer."""
        r = self.rng
        n = r.randrange(1, 4)
        body = " ".join("(yield %s)" % self.expr("int", env + [("yield", "?")], d - 1) for _ in range(n))
        wind = r.random() < 0.5
        if wind:
            body = "(dynamic-wind (lambda () (%%log 11)) (lambda () %s) (lambda () (%%log 12)))" % body
        if r.random() < 0.3:
            body += " " + self.effect(env + [("yield", "?")], d - 1)
        use = r.randrange(1, n + 2)
        u = "%d" % r.randrange(10 ** 9)
        self.extra_globals += ["(define %%r%s #f)" % u, "(define %%s%s #f)" % u]
        gen = ("(lambda () (call/cc (lambda (return) (set! %rU return) (if %sU (%sU #f) (let ((yield (lambda (v) (call/cc (lambda (next) (set! %sU next) (%rU v)))))) BODY (%rU 'done))))))"
               .replace("U", u).replace("BODY", body))
        uses = " ".join("(%s%d (g))" % ("u", i) for i in range(use))
        res = "(let* ((g %s) %s) (list %s))" % (gen, uses, " ".join("u%d" % i for i in range(use)))
        if t == "list":
            return res
        return "(let ((gl %s)) %s)" % (res, self.expr(t, env + [("gl", "list")], d))

    def g_guard(self, t, env, d):
        r = self.rng
        x = self.fresh()
        e = env + [(x, "any")]
        cl = []
        for _ in range(r.choice((0, 1, 1, 2))):
            k = r.random()
            test = r.choice(("(number? %s)", "(symbol? %s)", "(pair? %s)", "(and (number? %s) (> %s 2))", "#f", "(string? %s)", "(error-object? %s)", "(boolean? %s)")).replace("%s", x)
            if k < 0.7:
                cl.append("(%s %s)" % (test, self.body(t, e, d).replace("(define", "(%nodefine")))
            elif k < 0.85:
                cl.append("(%s => (lambda (t) %s))" % (test, self.expr(t, e, d)))
            else:
                cl.append("(%s)" % test if t == "bool" else "(%s %s)" % (test, self.expr(t, e, d - 1)))
        if r.random() < 0.45:
            cl.append("(else %s)" % self.expr(t, e, d))
        cl = [c for c in cl if "%nodefine" not in c]
        if not cl:
            cl = ["((symbol? %s) %s)" % (x, self.expr(t, e, d))]
        return "(guard (%s %s) %s)" % (x, " ".join(cl), self.body(t, env, d))

    def payload(self, env, d):
        r = self.rng
        return self.expr(r.choice(("int", "int", "sym", "list", "str", "bool")), env, d)

    def g_raise(self, t, env, d):
        r = self.rng
        k = r.random()
        if k < 0.35:
            e = "(raise %s)" % self.payload(env, d)
        elif k < 0.6:
            e = "(raise-continuable %s)" % self.payload(env, d)
            if r.random() < 0.6:
                test = {"int": "number?", "bool": "boolean?", "sym": "symbol?", "list": "list?", "vec": "vector?", "str": "string?"}.get(t)
                if test:
                    return "(let ((r %s)) (if (%s r) r %s))" % (e, test, self.leaf(t, env))
        elif k < 0.85:
            e = "(error \"%s\" %s)" % (r.choice(("m", "bad thing", "")), " ".join(self.expr("any", env, d - 1) for _ in range(r.randrange(3))))
        else:
            e = r.choice(("(quotient 1 0)", "(5 6)", "((case-lambda ((x) 1)) 1 2)", "(modulo %s 0)" % self.lit("int"), "(/ 3 0)", "('s 1)", "(#t)"))
        if r.random() < 0.6:
            return "(if %s %s %s)" % (self.expr("bool", env, d), e, self.expr(t, env, d))
        return "(begin %s %s)" % (e, self.leaf(t, env))

    def g_weh(self, t, env, d):
        r = self.rng
        x = self.fresh()
        e = env + [(x, "any")]
        k = r.random()
        if k < 0.4:
            body = self.body(r.choice((t, "int", "any")), e, d)
            return "(with-exception-handler (lambda (%s) %s) (lambda () %s))" % (x, body, self.body(t, env, d))
        kk = self.fresh()
        if kk == x:
            return None
        h = self.expr(t, e + [(kk, "cont-" + t)], d)
        what = r.random()
        if what < 0.3:
            h = "(if (error-object? %s) (error-object-irritants %s) %s)" % (x, x, x) if t in ("any", "list") else h
        elif what < 0.45:
            h = "(begin (%%log (if (error-object? %s) (string-length (error-object-message %s)) 7)) %s)" % (x, x, h)
        return "(call/cc (lambda (%s) (with-exception-handler (lambda (%s) (%s %s)) (lambda () %s))))" % (kk, x, kk, h, self.body(t, env + [(kk, "cont-" + t)], d))

    # parameters
    def g_param(self, t, env, d):
        r = self.rng
        ps = [(n, ty) for n, ty in self.paramobjs if not any(x == n for x, _ in env)]
        if not ps:
            return None
        k = r.random()
        if k < 0.45:
            c = [n for n, ty in ps if ty == t or t == "any"]
            if not c:
                n, ty = r.choice(ps)
                return "(begin (%%log (%s)) %s)" % (n, self.expr(t, env, d)) if ty == "int" else None
            return "(%s)" % r.choice(c)
        if k < 0.57 and "g_reenter" in self.focus and d > 0:
            n, ty = r.choice(ps)
            c, kk, g = "%%c%d" % r.randrange(10 ** 9), self.fresh(), "%%k%d" % r.randrange(10 ** 9)
            self.extra_globals += ["(define %s 0)" % c, "(define %s #f)" % g]
            note = lambda: r.choice(("(%%log (%s))", "", "(%%log (%s))")).replace("%s", n).replace("%%", "%")
            put = lambda: "(%s %s)" % (n, self.expr(ty, env, d - 2)) if r.random() < 0.5 else ""
            return ("(begin (parameterize ((%s %s)) %s %s (call/cc (lambda (%s) (set! %s %s))) %s %s %s (%%log 0)) %s (if (< %s %d) (begin (set! %s (+ %s 1)) (%s 0)) %s))" %
                    (n, self.expr(ty, env, d - 2), put(), note(), kk, g, kk, note(), put(), note(), r.choice((note(), put())), c, r.randrange(1, 3), c, c, g, self.expr(t, env, d - 1)))
        if k < 0.62 and self.focus:
            n, ty = r.choice(ps)
            return "(begin (%s %s) %s)" % (n, self.expr(ty, env, d), self.expr(t, env, d))
        bs = r.sample(ps, r.choice([x for x in (0, 1, 1, 1, 2, 3) if x <= len(ps)]))
        body = self.body(t, env, d)
        if self.focus and bs and r.random() < 0.7:
            n = r.choice(bs)[0]
            body = r.choice(("(%%log (%s)) %s", "(let ((r %s)) (%%log (%s)) r)", "(let ((l (list (%s) %s (%s)))) (%%log (car l)) (%%log (caddr l)) (cadr l))"))
            b2 = self.expr(t, env, d)
            body = body.replace("%%", "%!").replace("(%s)", "(" + n + ")").replace("%s", b2.replace("%", "%!")).replace("%!", "%")
        return "(parameterize (%s) %s)" % (" ".join("(%s %s)" % (n, self.expr(ty, env, d)) for n, ty in bs), body)

    # -- programs ---------------------------------------------------------------
    def program(self, uid):
        """(text of a single toplevel datum) built from definitions and an expression."""
        r = self.rng
        self.extra_globals = []
        self.paramobjs = []
        forms = []
        self.globals = []
        if self.features.get("g_param") or "g_param" in self.focus:
            for i in range(r.choice((1, 2, 3))):
                n = "%%p%d_%d" % (uid, i)
                if r.random() < 0.6:
                    conv = r.choice(("", " (lambda (x) (%log x) (* 2 x))", " (lambda (x) (+ x 1))", " (lambda (x) (if (number? x) x (raise 'bad)))"))
                    forms.append("(define %s (make-parameter %s%s))" % (n, self.lit("int"), conv))
                    self.paramobjs.append((n, "int"))
                else:
                    conv = r.choice(("", " (lambda (x) (list x))", " (lambda (x) (cons 'v x))"))
                    forms.append("(define %s (make-parameter %s%s))" % (n, self.lit("list"), conv))
                    self.paramobjs.append((n, "list"))
        penv = []
        for i in range(r.choice((0, 1, 2, 3))):
            n = "g%d_%d" % (uid, i)
            ty = r.choice(("int", "list", "proc1", "proc2", "int", "proc0"))
            if ty.startswith("proc") and r.random() < 0.8:
                ps = self.params(int(ty[4]))
                pt = (" " + ps[0]) if int(ty[4]) else ""
                pe = ps[1] if int(ty[4]) else []
                forms.append("(define (%s%s) %s)" % (n, pt, self.body("any", pe, self.size - 1)))
            else:
                forms.append("(define %s %s)" % (n, self.expr(ty, [], self.size - 2)))
            self.globals.append((n, ty))
            if r.random() < 0.1:
                forms.append("(set! %s %s)" % (n, self.expr(ty, [], 2)))
        menv = [(n, t) for n, t in self.globals]
        main = None
        for _ in range(4):
            if self.focus and not main:
                main = self.focused(r.choice(("list", "int", "bool")), menv, self.size)
        main = main or self.expr(r.choice(("list", "int", "any", "any")), menv, self.size)
        forms = self.extra_globals + forms
        if self.features.get("g_quasi"):
            main = self.quasi([], min(self.size, 4))
        forms.append("(let ((%%r %s)) (list %%r (reverse %%t)))" % main)
        return "(begin (set! %t '()) (set! %n 0) " + " ".join(forms) + ")"


def confine():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def worker(args):
    seed, n, kw, maxsteps, maxlen = args
    kw = dict(kw)
    need = kw.pop('need', ())
    rng = random.Random(seed)
    out = []
    disc = {}
    gen = 0
    while len(out) < n and gen < n * 30:
        gen += 1
        k = dict(kw)
        size = k.pop("size", (3, 4, 5, 6))
        g = Gen(rng, size=rng.choice(size), **k)
        try:
            text = rename_globals(g.program(rng.randrange(10 ** 9)))
        except RecursionError:
            continue
        if len(text) > maxlen:
            disc["too long"] = disc.get("too long", 0) + 1
            continue
        try:
            res, info = R.reference(DEFS_REF + text, limit=maxsteps)
        except MemoryError:
            res, info = None, "huge"
        except (IndexError, TypeError, KeyError, ValueError) as e:
            res, info = None, "not-prescribed(%s)" % type(e).__name__
        if res is None:
            info = re.sub(r" .*", "", info)
            disc[info] = disc.get(info, 0) + 1
            continue
        if need and not any(info[1].get(e) for e in need):
            disc["lacks the events wanted"] = disc.get("lacks the events wanted", 0) + 1
            continue
        out.append((text, res, info))
    return out, disc, gen


def programs(seed, n, kw, maxsteps=20000, maxlen=6000, procs=8):
    """n programs with prescribed outcomes: [(text, ('V', str) | ('E', None), steps)]."""
    chunk = max(10, min(400, n // (procs * 4) + 1))
    jobs = [("%s/%d" % (seed, i), chunk, kw, maxsteps, maxlen) for i in range((n + chunk - 1) // chunk)]
    allout, disc, gen = [], {}, 0
    with ProcessPoolExecutor(procs, mp_context=multiprocessing.get_context("fork"), initializer=confine) as p:
        for out, dd, g in p.map(worker, jobs):
            allout += out
            gen += g
            for k, v in dd.items():
                disc[k] = disc.get(k, 0) + v
    return allout, disc, gen
