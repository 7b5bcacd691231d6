"""The evaluator against a reference interpreter, on generated programs."""
import progcheck

TECHNIQUE = "monitored execution of generated programs; differential oracle: an independent reference interpreter (values and traces of side effects), which withholds judgement where the language leaves the outcome open"
NOTE = "Held on the generated programs only; programs whose outcome depends on the order of evaluation of operands, or on anything else the language does not prescribe, are not judged. Trusts checks/refint.py."
RULE = ("random loosely typed programs of the core forms (all parameter shapes, internal definitions, set!, let family, named let, do, case, cond, quasiquote, case-lambda, multiple values, promises, apply, higher-order procedures, shadowed names), "
        "judged by value and trace of side effects; distinct by text")
MIN = 500


def run(ck):
    n = ck.n(9000, 300000)
    progcheck.run(ck, [
        ("mixed", n // 2, {}),
        ("shadowing", n // 4, dict(features=dict(g_andor=12, g_let=15, g_letrec=10, g_named_let=8, g_app=10, g_body=10, g_letvalues=5), shadow=0.25)),
        ("scopes", n // 4, dict(features=dict(g_let=15, g_letstar=10, g_body=15, g_setbang=15, g_app=15, g_caselambda=8, g_apply=8, g_hof=1, g_do=1), shadow=0.08)),
        ("globals", n // 8, dict(features=dict(g_gset=12, g_global=12, g_callvar=12))),
        ("quasiquotation", n // 12, dict(features=dict(g_quasi=10), size=(2, 3, 4))),
        ("binding forms", n // 8, dict(features=dict(g_letvalues=15, g_letstarvalues=10, g_letrec=12, g_do=12, g_named_let=12, g_case=8, g_cond=8))),
    ])
