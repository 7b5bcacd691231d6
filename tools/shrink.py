#!/usr/bin/env python3
"""tools/shrink.py REPLAY...   reduce a program of a violation found by progcheck"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
import vlib, progen, refint as R
from refint import Pair, NIL


def to_py(x):
    if isinstance(x, Pair) or x is NIL:
        out = []
        while isinstance(x, Pair):
            out.append(to_py(x.car))
            x = x.cdr
        return ["L", out, None if x is NIL else to_py(x)]
    if isinstance(x, list):
        return ["V", [to_py(e) for e in x], None]
    return R.show(x)


def text(x):
    if isinstance(x, str):
        return x
    k, xs, tail = x
    if k == "L" and len(xs) == 2 and xs[0] in ("quote",):
        return "'" + text(xs[1])
    return ("#(" if k == "V" else "(") + " ".join(map(text, xs)) + (" . " + text(tail) if tail is not None else "") + ")"


def size(x):
    return 1 if isinstance(x, str) else 1 + sum(map(size, x[1])) + (size(x[2]) if x[2] is not None else 0)


def paths(x, p=()):
    yield p
    if not isinstance(x, str):
        for i, e in enumerate(x[1]):
            yield from paths(e, p + (i,))


def get(x, p):
    for i in p:
        x = x[1][i]
    return x


def put(x, p, v):
    if not p:
        return v
    xs = list(x[1])
    xs[p[0]] = put(xs[p[0]], p[1:], v)
    return [x[0], xs, x[2]]


def drop(x, p):
    par = get(x, p[:-1])
    xs = list(par[1])
    del xs[p[-1]]
    return put(x, p[:-1], [par[0], xs, par[2]])


def main(path):
    d = json.load(open(path))
    ck = vlib.Check("shrink", "")
    ck.known = []
    pool = ck.pool(d.get("variant", "opt"), workers=1)
    prog = to_py(R.parse(d["exprs"][-1])[0])
    defs = d["defs"]

    refdefs = "\n".join(l for l in defs.split("\n") if not l.startswith("(import"))

    def bad(t):
        s = text(t)
        try:
            res, _ = R.reference(refdefs + s, limit=20000)
        except Exception as e:
            return None
        if res is None:
            return None
        r = pool.run(defs + "\n'%%begin\n" + s + "\n", mode="each", timeout=5, **d.get("opts", {}))
        recs = vlib.records(r.out)
        at = [i for i, x in enumerate(recs) if x[2] == "%%begin"]
        got = recs[at[0] + 1:] if at else []
        if not got:
            return ("CRASH", r.kind, r.code), res
        k, t2 = got[0][1], got[0][2]
        if res[0] == "E":
            return None if k == "E" else ((k, t2), res)
        return None if (k, t2) == res else ((k, t2), res)

    cur = prog
    b = bad(cur)
    if not b:
        print("does not reproduce alone")
        return
    improved = True
    while improved:
        improved = False
        ps = sorted(paths(cur), key=lambda p: -size(get(cur, p)))
        for p in ps:
            try:
                n = get(cur, p)
            except Exception:
                continue
            cands = []
            if p:
                try:
                    cands.append(drop(cur, p))
                except Exception:
                    pass
            if not isinstance(n, str):
                for c in n[1]:
                    cands.append(put(cur, p, c))
                if len(n[1]) > 2:
                    for c in n[1][1:]:
                        if not isinstance(c, str):
                            for cc in c[1]:
                                cands.append(put(cur, p, cc))
            for lit in ("1", "#f", "#t"):
                if n != lit:
                    cands.append(put(cur, p, lit))
            for c in cands:
                if size(c) > size(cur) or c == cur or (size(c) == size(cur) and (isinstance(n, str) and n in ("1", "#f", "#t"))):
                    continue
                bb = bad(c)
                if bb:
                    cur, b = c, bb
                    improved = True
                    break
            if improved:
                break
    print(text(cur))
    print("   got %s, prescribed %s" % b)


for a in sys.argv[1:]:
    main(a)
os._exit(0)
