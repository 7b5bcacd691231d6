"""Exceptions against the reference interpreter."""
import progcheck

TECHNIQUE = "monitored execution of generated programs; differential oracle: an independent CPS reference interpreter with a handler stack (values and event traces), which withholds judgement where the language leaves the outcome open"
NOTE = "Held on the generated programs only; the texts of the errors of primitives are not judged. Trusts checks/refint.py."
RULE = ("random programs nesting with-exception-handler, guard (with and without else and =>), raise, raise-continuable, error, errors of primitives, dynamic-wind, escapes and parameters; "
        "judged by value, by the trace of side effects and by whether an exception remains uncaught; distinct by text")
MIN = 500
RAISED = ("exception raised", "exception raised continuably")


def run(ck):
    n = ck.n(7000, 250000)
    base = dict(setlocal=False)
    progcheck.run(ck, [
        ("guard", n // 3, dict(need=RAISED, focus=dict(g_guard=5, g_raise=5, g_wind=4), **base)),
        ("handlers", n // 3, dict(need=RAISED, focus=dict(g_weh=5, g_raise=5, g_guard=3, g_wind=2), **base)),
        ("unwinding", n // 12, dict(need=("wind thunk run by a jump out",), focus=dict(g_guard=4, g_wind=6, g_raise=5, g_weh=1), **base)),
        ("mixed control", n // 3, dict(need=RAISED, focus=dict(g_guard=4, g_weh=4, g_raise=5, g_wind=5, g_callcc=2, g_contval=2, g_param=2, g_reenter=1), **base)),
    ])
    ck.run_known()
