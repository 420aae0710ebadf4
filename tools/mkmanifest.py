#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from table import P
with open(V + "/properties.jsonl", "w") as f:
    for i, p in sorted(P.items()):
        f.write(json.dumps(dict(id=i, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
            mechanism=[dict(name=a, where=b) for a, b in p["mechanism"]], observe_at=p["observe"], hook_needed=None))) + "\n")
M = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[], not_applicable=[],
         notes="No hooks are compiled into /repo: contracts are attached to the real functions from /verif/spec at check time.")
for i, p in sorted(P.items()):
    if p["na"]:
        M["not_applicable"].append(dict(property=i, reason=p["na"]))
    else:
        M["checks"].append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
            technique="contract-based deductive verification of the real C functions (CBMC code and loop contracts), native replay of counterexamples",
            level="proof", level_note=p["note"], evidence_file="evidence/%s.json" % i))
        assert p["note"], i
        assert len(p["title"]) <= 80, i
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
