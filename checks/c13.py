"""Continuations and dynamic-wind against the reference interpreter."""
import progcheck

TECHNIQUE = "monitored execution of generated control-flow programs; differential oracle: an independent CPS reference interpreter with a dynamic-wind stack (values and event traces), which withholds judgement where the language leaves the outcome open"
NOTE = "Held on the generated programs only. Re-entry into the evaluation of operands whose variables are assigned is a known finding and is kept out of the generated programs. Trusts checks/refint.py."
RULE = ("random programs with call/cc (escaping, stored, re-entered a bounded number of times, generators with saved return points), dynamic-wind nesting, exceptions and parameters inside the extents; "
        "judged by value and by the trace of the before/after thunks; distinct by text")
MIN = 500


def run(ck):
    n = ck.n(4500, 250000)
    base = dict(setlocal=False)
    progcheck.run(ck, [
        ("escapes", n // 4, dict(need=("continuation invoked",), focus=dict(g_callcc=4, g_contval=4, g_wind=3), **base)),
        ("re-entry", n // 4, dict(need=("continuation invoked again",), focus=dict(g_callcc=2, g_contval=1, g_wind=2, g_reenter=3), size=(3, 4), **base)),
        ("generators", n // 6, dict(need=("continuation invoked again", "continuation invoked"), focus=dict(g_gen=4, g_wind=2, g_callcc=2, g_contval=2), size=(2, 3, 4), pfocus=0.25, **base)),
        ("mixed control", n // 3, dict(need=("wind thunk run by a jump out", "wind thunk run by a jump in"), focus=dict(g_callcc=4, g_contval=4, g_wind=5, g_reenter=1, g_gen=1, g_guard=3, g_raise=3, g_weh=2, g_param=2), **base)),
    ])
    ck.run_known()
