#!/usr/bin/env python3
"""checks/run.py <id>             run the check of one property
   checks/run.py --replay <file>  evaluate a recorded violation again"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
import vlib


def replay(path):
    d = json.load(open(path))
    ck = vlib.Check(d["property"], "replay")
    if "tool" in d:
        os.execv(os.path.join(ck.build(d["variant"], d["tool"]), d["tool"]), [d["tool"]] + d["args"])
    pool = ck.pool(d.get("variant", "opt"), workers=1)
    text = d.get("defs", "") + "\n" + "\n".join(d.get("exprs", [])) + "\n"
    r = pool.run(d.get("program", text), mode=d.get("mode", "each"), timeout=60, **d.get("opts", {}))
    for x in vlib.records(r.out):
        print(x)
    print(r.kind, r.code, r.err[-3000:])
    print("wanted:", d.get("want"), "| recorded:", d["got"], d["why"])
    os._exit(0)


def main():
    if sys.argv[1] == "--replay":
        replay(sys.argv[2])
    pid = sys.argv[1]
    mod = importlib.import_module(pid.lower())
    ck = vlib.Check(pid, mod.RULE, getattr(mod, "ASSUMPTIONS", ()))
    for attempt in (1, 2):
        try:
            mod.run(ck)
        except vlib.HarnessError as e:
            if ck.violations:
                break
            if attempt == 1:
                ck.pools.clear()
                continue
            if "did not boot" not in str(e):
                print("HARNESS-ERROR", str(e)[:2000])
                os._exit(5)
            ck.violation("start-up of the interpreter and import of the standard libraries", str(e)[-1500:],
                         "the interpreter must start before it can satisfy any property", dict(defs="", exprs=["1"]))
            ck.count("start-up", n=1)
        break
    ck.finish(getattr(mod, "MIN", 50))


main()
