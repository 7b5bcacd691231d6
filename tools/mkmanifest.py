#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the drivers present in checks/."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    f = "%s/checks/%s.py" % (V, p["id"].lower())
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="no check built yet"))
        continue
    g = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("TECHNIQUE", "NOTE"):
            g[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(property=p["id"], quick_cmd="python3 checks/run.py " + p["id"], thorough_cmd="python3 checks/run.py " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=g["TECHNIQUE"], level="exploration", level_note=g["NOTE"]))
m = dict(version=1, setup_cmd="python3 lib/build.py",
         hooks=dict(guard="MEEVAX_VERIF", enable="lib/build.py compiles /repo's sources with -DMEEVAX_VERIF and links harness/*.cpp, which define the hook",
                    source_commits=["f3e99a3"]),
         checks=checks, not_applicable=na,
         notes="Every check rebuilds /repo's working tree into /verif/.build (git-ignored) with lib/build.py. VERIF_TIER selects quick/thorough, VERIF_SEED the random choices. python3 checks/run.py --replay FILE evaluates a recorded violation again.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
