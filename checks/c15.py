"""Parameter objects against the reference interpreter."""
import progcheck

TECHNIQUE = "monitored execution of generated programs; differential oracle: an independent CPS reference interpreter with dynamic environments (values and event traces), which withholds judgement where the language leaves the outcome open"
NOTE = "Held on the generated programs only; parameter objects are assigned by calling them with one argument, as in SRFI 39. Trusts checks/refint.py."
RULE = ("random programs with parameter objects (with and without converters, some of which raise), nested parameterize, escapes, re-entries, generators, exceptions and dynamic-wind around them; "
        "judged by value and by the trace of side effects, including how often each converter ran; distinct by text")
MIN = 500
READ = ("parameter read under parameterize",)


def run(ck):
    n = ck.n(6000, 250000)
    base = dict(setlocal=False)
    progcheck.run(ck, [
        ("parameters", n // 3, dict(need=READ, focus=dict(g_param=6, g_wind=1), **base)),
        ("exits", n // 3, dict(need=READ, focus=dict(g_param=6, g_callcc=2, g_contval=2, g_guard=2, g_raise=2, g_wind=2), **base)),
        ("re-entry", n // 3, dict(need=READ, focus=dict(g_param=6, g_reenter=2, g_gen=1, g_wind=1, g_callcc=1, g_contval=1), size=(2, 3, 4), **base)),
    ])
    ck.run_known()
