#!/usr/bin/env python3
"""replay.py <replay file>: rebuild the driver from /repo's tree and re-run one recorded failing input."""
import importlib, os, re, sys, glob
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib as V
t = open(sys.argv[1]).read()
g = lambda k: (re.search(r"^%s: (.*)$" % k, t, re.M) or [None, ""])[1]
pid, h = g("property"), g("harness")
if not h:
    print(t); sys.exit(0)
P = importlib.import_module("props." + pid).PROP
sc = V.Scratch()
try:
    n = V.Native(sc)
    with ThreadPoolExecutor(8) as pool:
        n.build(pool)
    d = next(d for d in P["drivers"] if any(x["name"] == h for x in d["harnesses"]))
    b, err = n.link(d)
    if not b:
        print(err); sys.exit(2)
    ok, r, o, e = V.replay(b, h, g("choices"), g("raw"), sc.path("rp"))
    print(o); print(e[-4000:])
    sys.exit(1 if ok else 0)
finally:
    sc.close()
