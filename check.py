#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property on /repo's current tree."""
import importlib, json, os, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib as V


def known_findings(pid):
    out = []
    p = os.path.join(V.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                kv = dict(x.split("=", 1) for x in l.split(" ", 4)[1:4] if "=" in x)
                out.append((kv.get("harness", ""), l.split("msg=", 1)[1] if "msg=" in l else "", l))
    return out


def write_replay(pid, k, text):
    d = os.path.join(V.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.txt" % (pid, k))
    with open(p, "w") as f:
        f.write(text)
    return p


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    only = [a[5:] for a in sys.argv if a.startswith("--ob=")]
    onlyh = [a[4:] for a in sys.argv if a.startswith("--h=")]
    t0 = time.time()
    P = importlib.import_module("props." + pid).PROP
    sc = V.Scratch()
    try:
        return go(pid, tier, P, sc, t0, only, onlyh, "-v" in sys.argv)
    finally:
        if "--keep" in sys.argv:
            print("scratch:", sc.dir)
        else:
            sc.close()


def go(pid, tier, P, sc, t0, only, onlyh, verbose):
    obs = [o for o in P.get("obligations", []) if (tier == "thorough" or not o.get("thorough_only")) and (not only or o["name"] in only or only == ["none"])]
    if only == ["none"]:
        obs = []
    drvs = P.get("drivers", []) if not only or onlyh else []
    nat = V.Native(sc)
    results, hres, errors = [], [], []
    bins = {}
    with ThreadPoolExecutor(8) as pool:
        ofut = []
        native_ok = nat.build(pool) if P.get("drivers") and (drvs or obs) else False
        # obligations first: they take longest
        for o in sorted(obs, key=lambda o: -o.get("weight", 1)):
            ofut.append(pool.submit(V.do_obligation, o, sc, tier))
        if not native_ok and P.get("drivers"):
            errors.append(nat.err)
        lf = []
        if native_ok:
            for d in P.get("drivers", []):
                lf.append((d, pool.submit(nat.link, d)))
        hf = []
        for d, f in lf:
            b, err = f.result()
            if not b:
                errors.append(err)
                continue
            for h in d["harnesses"]:
                bins[h["name"]] = (b, h)
                if d in drvs and (not onlyh or h["name"] in onlyh):
                    hf.append(pool.submit(V.run_harness, b, h, tier, sc.path("run_" + h["name"])))
        for f in hf:
            hres.append(f.result())
        for f in ofut:
            results.append(f.result())
    violations = []
    known = known_findings(pid)
    knownhit = []

    def report(harness, r, choices, raw, via):
        ok, rr, o, e = V.replay(bins[harness][0], harness, choices, raw, sc.path("rp_%s_%d" % (harness, len(violations))))
        if not ok:
            return False
        msg = rr.get("msg", "")
        for kh, km, line in known:
            if kh == harness and km and km in (msg + e):
                knownhit.append(line)
                return True
        txt = "property: %s\nharness: %s\nfound by: %s\nraw: %s\nchoices: %s\nresult on the real code: %s\n%s\n--- driver output\n%s\n--- stderr\n%s\n" % (
            pid, harness, via, raw, choices, msg, "re-run: python3 /verif/replay.py <this file>", o, e[-5000:])
        violations.append((write_replay(pid, len(violations), txt), False, "%s: %s" % (harness, msg)))
        return True

    def bounded(o, r, rh, done):
        """run o without its loop contracts; True when a specification assertion fails there"""
        if not o.get("loops") or time.time() - t0 > 600:
            return False
        bad, how = V.do_bounded(o, sc, tier)
        if not bad:
            return False
        for f in bad:
            if rh and rh in bins and f["choices"] and not done:
                done = report(rh, None, " ".join(map(str, f["choices"])), "1", "CBMC counterexample (bounded run) for %s" % f["desc"])
        if not done:
            txt = "property: %s\nobligation set: %s (functions %s)\nnot proved any more; these assertions fail with every annotated loop cut after 3 passes:\n" % (pid, r["name"], ", ".join(r["fn"]))
            for f in bad:
                txt += "  %s [%s in %s]: %s\n    counterexample choices: %s\n" % (f["property"], f["where"], f.get("fn"), f["desc"], f.get("choices"))
            txt += "failed inductive annotations:\n" + "".join("  %s: %s\n" % (f["property"], f["desc"]) for f in r["failures"])
            violations.append((write_replay(pid, len(violations), txt), True, "obligation %s: %s" % (r["name"], bad[0]["desc"])))
        return True

    for h in hres:
        if h.get("failed"):
            if not report(h["harness"], h, h["choices"], h["raw"], "native exploration (%s)" % h["mode"]):
                # not reproducible alone: give the evidence we have
                txt = "property: %s\nharness: %s\nmsg: %s\nchoices: %s\nNOT reproduced on replay\n%s\n" % (pid, h["harness"], h["msg"], h["choices"], h["stderr"])
                errors.append("unreproducible failure in %s: %s" % (h["harness"], h["msg"]))
                write_replay(pid, 90, txt)
        elif h.get("error"):
            errors.append("%s: %s" % (h["harness"], h["error"]))
    obfail = [r for r in results if r["status"] == "failed"]
    for r in obfail:
        o = next(o for o in obs if o["name"] == r["name"])
        done = False
        # 1. replay the verifier's counterexample
        rh = o.get("replay")
        if rh and rh in bins:
            for f in r["failures"]:
                if f.get("choices") and not done:
                    done = report(rh, None, " ".join(map(str, f["choices"])), "1", "CBMC counterexample for obligation %s of %s: %s" % (f["property"], r["name"], f["desc"]))
        # 2. search for a failing input around the failing function
        if not done and violations:
            done = True
        if not done:
            for hn in o.get("search", [h for h in bins]):
                if hn not in bins or done:
                    continue
                hh = dict(bins[hn][1], time=min(25, 3 * bins[hn][1].get("time", 8)))
                x = V.run_harness(bins[hn][0], hh, "quick", sc.path("s_" + r["name"] + hn))
                if x.get("failed"):
                    done = report(hn, x, x["choices"], x["raw"], "search triggered by failed obligation(s) of %s: %s" % (r["name"], r["failures"][0]["desc"]))
        if not done:
            hard = [f for f in r["failures"] if not any(s in f["desc"].lower() for s in ("invariant", "decreases", "loop assigns", "loop_assigns", "recursion", "variant"))
                    and ".loop_" not in f["property"] and ".assigns" not in f["property"]]
            if hard:
                txt = "property: %s\nobligation set: %s (functions %s)\nfailed obligations (accepted on the committed tree):\n" % (pid, r["name"], ", ".join(r["fn"]))
                for f in r["failures"]:
                    txt += "  %s [%s in %s]: %s\n    counterexample choices: %s\n" % (f["property"], f["where"], f.get("fn"), f["desc"], f.get("choices"))
                txt += "verifier: %s\n" % r.get("cmd")
                violations.append((write_replay(pid, len(violations), txt), True, "obligation %s: %s" % (r["name"], hard[0]["desc"])))
                continue
            if not bounded(o, r, rh, done):
                r["status"] = "undecided"
                r["reason"] = "only inductive annotations fail (%s); no failing input found" % r["failures"][0]["desc"]
    for r in results:
        if r["status"] == "undecided" and not violations and ("timeout" in r.get("reason", "") or "no result" in r.get("reason", "")):
            o = next(o for o in obs if o["name"] == r["name"])
            bounded(o, r, o.get("replay"), False)
    for r in results:
        if r["status"] in ("undecided", "vacuous"):
            errors.append("UNDECIDED %s: %s" % (r["name"], r.get("reason")))
    proved = [r for r in results if r["label"] == "proved"]
    bounded = [r for r in results if r["label"] != "proved"]
    tb = list(P.get("trusted", []))
    ev = dict(property=pid, tier=tier, seed=V.SEED, level="proof", wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=P.get("assumptions", []),
              coverage=dict(
                  obligations=sum(r["total"] for r in proved), discharged=sum(r["ok"] for r in proved if r["status"] == "proved"),
                  checker_cmd="goto-cc; goto-instrument --dfcc --enforce-contract/--replace-call-with-contract/--apply-loop-contracts; cbmc 6.11 (python3 check.py %s)" % pid,
                  trusted_base=tb,
                  functions_under_contract=sorted({f for r in proved if r["status"] == "proved" for f in r["fn"]}),
                  proofs=[dict(name=r["name"], functions=r["fn"], status=r["status"], obligations=r["total"], discharged=r["ok"],
                               backend=r["backend"], solver_s=round(r["time"], 2), reachability=r["reach"], reason=r.get("reason"), cmd=r.get("cmd")) for r in proved],
                  bounded_verifier_checks=[dict(name=r["name"], functions=r["fn"], bound=r["label"], status=r["status"], checks=r["total"], passed=r["ok"],
                                                backend=r["backend"], solver_s=round(r["time"], 2), reachability=r["reach"], reason=r.get("reason")) for r in bounded],
                  bounded_native_checks=[dict(harness=h["harness"], mode=h["mode"], runs=h["runs"], distinct=h["distinct"], exhausted=h["exhausted"],
                                              bound=bins[h["harness"]][1].get("bound", ""), functions=bins[h["harness"]][1].get("functions", [])) for h in hres],
                  problems=errors))
    os.makedirs(os.path.join(V.VERIF, "evidence"), exist_ok=True)
    if not only and not onlyh:
        with open(os.path.join(V.VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for r in results:
        print("%-10s %-34s %4d/%-4d %-16s %6.1fs %s" % (r["status"], r["name"], r["ok"], r["total"], r["label"][:16], r["time"], (r.get("reason") or "")[:300 if not verbose else 3000]))
        if verbose or r["status"] == "failed":
            for f in r["failures"][:8]:
                print("      FAILED", f["property"], f["where"], f["desc"], f.get("choices"))
            if verbose: print("      ", r["reach"], r.get("cmd"))
    for h in hres:
        print("%-10s %-34s %d runs, %d distinct, %d skipped%s %.1fs" % ("FAILED" if h.get("failed") else "ok", h["harness"], h["runs"], h["distinct"], h["skipped"], ", exhausted" if h["exhausted"] else "", h["time"]))
    for e in errors:
        print("note:", (e or "")[:2000].replace("VIOLATION", "violation"))
    for k in sorted(set(knownhit)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k.split("msg=", 1)[-1]))
    seen = set()
    for p, noinput, what in violations:
        print("violated:", what)
        print("VIOLATION property=%s replay=%s%s" % (pid, p, " no-failing-input-found" if noinput else ""))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
