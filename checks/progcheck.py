"""Runs generated programs against the reference interpreter."""
import progen
from vlib import Case


def explain(want):
    def judge(kind, text):
        if want[0] == "E":
            return None if kind == "E" else "the program raises an uncaught error"
        if kind == "V" and text == want[1]:
            return None
        return "the language prescribes %s" % want[1]
    return judge


def run(ck, plan, variant="opt", defs=progen.DEFS, batch=40, timeout=10.0, **kw):
    """plan: [(tag, number of programs, generator arguments)]"""
    cases = []
    for tag, n, gk in plan:
        progs, disc, gen = progen.programs("%s/%s/%d" % (ck.pid, tag, ck.seed), n, gk)
        ck.stat("generated", gen)
        for k, v in disc.items():
            ck.stat("discarded: " + k, v)
        for text, want, (steps, events) in progs:
            ck.stat("reference steps", steps)
            for e, c in events.items():
                ck.stat("events: " + e, c)
                ck.stat("programs with: " + e)
            ck.stat("programs that end in %s" % ("a value" if want[0] == "V" else "an uncaught error"))
            cases.append(Case(text, want[1] if want[0] == "V" else explain(want), tag, defs=defs))
    ck.run_cases(cases, variant=variant, batch=batch, timeout=timeout, **kw)
