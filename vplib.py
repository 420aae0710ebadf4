"""Shared machinery: annotate /repo sources, run CBMC obligations, build and run
the native (real code + real glib) drivers, decide, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
GLIBC = subprocess.run(["pkg-config", "--cflags", "glib-2.0", "gmodule-2.0"], capture_output=True, text=True).stdout.split()
GLIBL = subprocess.run(["pkg-config", "--libs", "glib-2.0", "gmodule-2.0"], capture_output=True, text=True).stdout.split()
DEFS = ["-DHAVE_CONFIG_H", "-DSTRICT_MEMORY_ALLOCS=", '-DDEFAULT_CONFIG_DIR="/nonexistent/cfg"',
        '-DHELPFILE="/nonexistent/help"', '-DMODULESDIR="/nonexistent/mods"', '-DSYSCONFDIR="/nonexistent/etc"',
        '-DDEFAULT_CONFIG_FILE="/nonexistent/ctrlproxyd.conf"', '-DSSL_CREDENTIALS_DIR="/nonexistent/ssl"',
        '-DPIDFILE="/nonexistent/pid"']


def incs(root):
    return ["-I" + os.path.join(VERIF, "lib"), "-I" + os.path.join(VERIF, "lib/cfg"), "-I" + root,
            "-I" + root + "/libirc", "-I" + root + "/src", "-I" + os.path.join(VERIF, "spec"),
            "-isystem", "/usr/include/mit-krb5"]


# --------------------------------------------------------------- C annotator
def mask_c(src):
    """Same-length copy with comments, strings, char literals and preprocessor
    lines blanked, so that braces and parens can be matched lexically."""
    out = list(src)
    i, n = 0, len(src)
    bol = True

    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        c = src[i]
        if src.startswith("/*", i):
            j = src.find("*/", i + 2)
            j = n if j < 0 else j + 2
            blank(i, j); i = j; continue
        if src.startswith("//", i):
            j = src.find("\n", i); j = n if j < 0 else j
            blank(i, j); i = j; continue
        if c == '"' or c == "'":
            j = i + 1
            while j < n and src[j] != c:
                j += 2 if src[j] == "\\" else 1
            blank(i, min(j + 1, n)); i = j + 1; bol = False; continue
        if c == "#" and bol:
            j = i
            while True:
                k = src.find("\n", j); k = n if k < 0 else k
                if src[k - 1] == "\\":
                    j = k + 1; continue
                break
            blank(i, k); i = k; continue
        if c == "\n":
            bol = True
        elif not c.isspace():
            bol = False
        i += 1
    return "".join(out)


def match_close(m, i, o, c):
    d = 0
    while i < len(m):
        if m[i] == o:
            d += 1
        elif m[i] == c:
            d -= 1
            if d == 0:
                return i
        i += 1
    return -1


def find_function(mask, name):
    """(start of parameter list, '{', '}') of the definition of name, or None"""
    for mm in re.finditer(r"(?<![\w.>])%s\s*\(" % re.escape(name), mask):
        p = mm.end() - 1
        q = match_close(mask, p, "(", ")")
        if q < 0:
            continue
        k = q + 1
        while k < len(mask) and mask[k].isspace():
            k += 1
        if k < len(mask) and mask[k] == "{":
            # definitions only at brace depth 0
            if mask[:mm.start()].count("{") == mask[:mm.start()].count("}"):
                return (p, k, match_close(mask, k, "{", "}"))
    return None


class AnnotateError(Exception):
    pass


def annotate(src, loops):
    """Insert loop contracts. loops: {function: {ordinal: (contract, ghost)}}.
    Nothing is dropped or changed: only text is inserted between a loop head and
    its body (and braces round a body that had none when ghost code is given)."""
    mask = mask_c(src)
    edits = []
    for fn, anns in loops.items():
        f = find_function(mask, fn)
        if not f:
            raise AnnotateError("function %s not found" % fn)
        heads = []
        for mm in re.finditer(r"\b(for|while)\s*\(", mask[f[1]:f[2]]):
            p = f[1] + mm.end() - 1
            q = match_close(mask, p, "(", ")")
            k = q + 1
            while mask[k].isspace():
                k += 1
            isdo = mm.group(1) == "while" and mask[k] == ";"
            heads.append((q + 1, k, isdo))
        if len(heads) != anns.get("n", len(heads)):
            raise AnnotateError("%s has %d loops, contract written for %d" % (fn, len(heads), anns["n"]))
        for o, a in anns.items():
            if o == "n":
                continue
            if o >= len(heads):
                raise AnnotateError("loop %d of %s not found" % (o, fn))
            contract, ghost = a if isinstance(a, tuple) else (a, None)
            q, k, isdo = heads[o]
            edits.append((q, "\n" + contract + "\n"))
            if ghost:
                if mask[k] != "{":
                    e = mask.find(";", k)
                    b = k
                    mi = re.match(r"if\s*\(", mask[k:])
                    if mi:	# if (...) simple statement; without else
                        b = match_close(mask, k + mi.end() - 1, "(", ")") + 1
                        while mask[b].isspace():
                            b += 1
                        if re.match(r"\s*else\b", mask[e + 1:]):
                            b = k
                    if re.match(r"(if|for|while|do|switch|return)\b|\{", mask[b:]) or e < 0:
                        raise AnnotateError("loop %d of %s has no block body" % (o, fn))
                    edits.append((e + 1, " }"))
                    edits.append((k, "{ " + ghost + " "))
                else:
                    edits.append((k + 1, " " + ghost + " "))
    for pos, txt in sorted(edits, reverse=True):
        src = src[:pos] + txt + src[pos:]
    return src


# ------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-", dir=os.environ.get("VP_TMP", "/tmp"))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def rename_definitions(src, fns):
    """Rename the definition (not the calls) of each function to vp_real_<fn>,
    so that a spec can stand a contract in executable form in its place."""
    for fn in fns:
        mask = mask_c(src)
        f = find_function(mask, fn)
        if not f:
            raise AnnotateError("function %s not found" % fn)
        a = mask.rfind(fn, 0, f[0] + 1)
        src = src[:a] + "vp_real_" + src[a:]
    return src


def copy_sources(dst, loops=None, stub=None):
    """Copy .c/.h of libirc, src, daemon; annotate those with loop contracts."""
    for d in ("libirc", "src", "daemon"):
        os.makedirs(os.path.join(dst, d), exist_ok=True)
        for f in os.listdir(os.path.join(REPO, d)):
            if f.endswith((".c", ".h")):
                s = open(os.path.join(REPO, d, f), encoding="utf-8", errors="surrogateescape").read()
                if loops and (d + "/" + f) in loops:
                    s = annotate(s, loops[d + "/" + f])
                if stub and (d + "/" + f) in stub:
                    s = rename_definitions(s, stub[d + "/" + f])
                with open(os.path.join(dst, d, f), "w", encoding="utf-8", errors="surrogateescape") as o:
                    o.write(s)


# --------------------------------------------------------------------- CBMC
CBMC_CHECKS = ["--pointer-check", "--bounds-check", "--signed-overflow-check", "--div-by-zero-check",
               "--undefined-shift-check"]


def run(cmd, timeout, cwd=None, env=None, mem_gb=8):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        os.setpgrp()
    t0 = time.time()
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                             preexec_fn=lim if mem_gb else os.setpgrp)
        try:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            o, e = p.communicate()
            rc = "timeout"
    except OSError as ex:
        return "oserror", "", str(ex), 0.0
    return rc, o.decode("utf-8", "replace"), e.decode("utf-8", "replace"), time.time() - t0


def do_obligation(ob, scratch, tier):
    """Returns dict: status in proved|failed|undecided, counts, failures, log"""
    name = ob["name"]
    d = scratch.path("ob_" + name)
    os.makedirs(d)
    res = dict(name=name, fn=ob.get("functions", []), label=ob.get("label", "proved"), total=0, ok=0,
               failures=[], time=0.0, backend=ob.get("solver", "sat(cadical)"), reach=None, log="")
    root = os.path.join(d, "r")
    try:
        copy_sources(root, ob.get("loops"), ob.get("stub"))
    except AnnotateError as e:
        res.update(status="undecided", reason="annotation: %s" % e)
        return res
    spec = os.path.join(VERIF, "spec", ob["file"])
    base = ["goto-cc", "-DVP_CBMC", "-U__OPTIMIZE__", "-w"] + incs(root) + GLIBC + DEFS + ob.get("defs", [])
    models = [os.path.join(VERIF, "lib", m) for m in ob.get("models", ["gmodel.c"])]
    timeout = ob.get("timeout", 300) * (3 if tier == "thorough" else 1)
    cmds = []

    def build(out, reach):
        c = base + (["-DVP_REACHCHECK"] if reach else []) + ["--function", ob["entry"], spec] + models + ["-o", out + ".gb"]
        rc, o, e, t = run(c, 120)
        if rc != 0:
            return None, "goto-cc: " + (e + o)[-1500:]
        g = out + ".gb"
        if ob.get("enforce") or ob.get("replace") or ob.get("loops"):
            gi = ["goto-instrument", "--dfcc", ob["entry"]]
            for f in ob.get("enforce", []):
                gi += ["--enforce-contract", f]
            for f in ob.get("replace", []):
                gi += ["--replace-call-with-contract", f]
            if ob.get("loops"):
                gi += ["--apply-loop-contracts"]
            gi += [g, out + ".i.gb"]
            rc, o, e, t = run(gi, 120)
            if rc != 0:
                return None, "goto-instrument: " + (e + o)[-1500:]
            g = out + ".i.gb"
        return g, None

    sat = not ob.get("solver") or ob.get("reach_inline")
    g, err = build(os.path.join(d, "m"), sat)
    if not g:
        res.update(status="undecided", reason=err)
        return res
    cb = ["cbmc", g, "--sat-solver", "cadical", "--json-ui", "--trace", "--slice-formula"] + ob.get("checks", CBMC_CHECKS) + ob.get("flags", [])
    if ob.get("unwind"):
        cb += ["--unwind", str(ob["unwind"]), "--unwinding-assertions"]
    if ob.get("unwindset"):
        cb += ["--unwindset", ob["unwindset"]]
    if ob.get("solver"):
        cb += ["--" + ob["solver"]]
    res["cmd"] = " ".join(["cbmc"] + cb[3:])
    rc, o, e, t = run(cb, timeout, mem_gb=ob.get("mem", 12))
    res["time"] += t
    if rc == "timeout":
        res.update(status="undecided", reason="solver timeout after %ds" % timeout)
        return res
    props = None
    try:
        for item in json.loads(o):
            if isinstance(item, dict) and "result" in item:
                props = item["result"]
    except ValueError:
        pass
    if props is None:
        res.update(status="undecided", reason="cbmc gave no result: rc=%s %s" % (rc, (o + e)[-1500:]))
        return res
    undec = False
    reach_ok = []
    for p in props:
        desc = p.get("description", "")
        if desc.startswith("VPREACH"):
            reach_ok.append((desc, p["status"] == "FAILURE"))
            continue
        res["total"] += 1
        if p["status"] == "SUCCESS":
            res["ok"] += 1
        elif p["status"] == "FAILURE":
            loc = p.get("sourceLocation", {}) or {}
            tr = p.get("trace")
            choices = []
            if tr:
                for s in tr:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "vp_byte":
                        b = s.get("value", {}).get("binary")
                        if b is not None:
                            choices.append(int(b, 2))
            if choices:
                choices = choices[1:] if False else choices
            if "unwinding assertion" in desc:
                undec = True
                res["failures"].append(dict(property=p["property"], desc=desc, where="%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?")), fn=loc.get("function"), unwinding=True))
                continue
            res["failures"].append(dict(property=p["property"], desc=desc,
                                        where="%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?")),
                                        fn=loc.get("function"), choices=choices))
        else:
            undec = True
    if not sat:
        # reachability of the obligation's end (vacuity guard) in a second run
        g2, err = build(os.path.join(d, "v"), True)
        if g2:
            rc2, o2, e2, t2 = run(["cbmc", g2, "--show-properties", "--json-ui"], 120)
            ids = []
            try:
                for item in json.loads(o2):
                    for p in (item.get("properties", []) if isinstance(item, dict) else []):
                        if p.get("description", "").startswith("VPREACH"):
                            ids.append((p["name"], p["description"]))
            except ValueError:
                pass
            for pid, desc in ids:
                c2 = ["cbmc", g2, "--json-ui", "--property", pid, "--slice-formula"] + ob.get("flags", [])
                if ob.get("unwind"):
                    c2 += ["--unwind", str(ob["unwind"])]
                if ob.get("unwindset"):
                    c2 += ["--unwindset", ob["unwindset"]]
                c2 += ["--" + ob["solver"]]
                rc2, o2, e2, t2 = run(c2, ob.get("reach_timeout", 40), mem_gb=12)
                res["time"] += t2
                proven_unreachable = '"status": "SUCCESS"' in o2
                reach_ok.append((desc, not proven_unreachable))
    res["reach"] = ["%s: %s" % (a, "reached" if b else "UNREACHABLE") for a, b in reach_ok]
    real = [f for f in res["failures"] if not f.get("unwinding")]
    nobody = [f for f in real if "undefined function should be unreachable" in f["desc"]]
    if nobody:
        # the code now calls something the specification knows nothing about
        res["status"] = "undecided"
        res["reason"] = "call to a function without body or contract: %s" % nobody[0]["property"]
    elif real:
        res["status"] = "failed"
    elif undec or res["failures"]:
        res["status"] = "undecided"
        res["reason"] = "solver gave no verdict on some obligations" if undec and not res["failures"] else "unwinding bound reached"
    elif res["total"] == 0 or any(not b for a, b in reach_ok) or not reach_ok:
        res["status"] = "vacuous"
        res["reason"] = "no obligations or unreachable end: %s" % res["reach"]
    else:
        res["status"] = "proved"
    return res


def do_bounded(ob, scratch, tier, bound=3):
    """The same harness without the loop contracts (the ghost code stays), every
    annotated loop cut after `bound` passes: finds real assertion failures on
    short runs when only the inductive annotations stopped holding. Never used
    to call anything proved. Returns the failed specification assertions."""
    d = scratch.path("bd_" + ob["name"])
    os.makedirs(d)
    root = os.path.join(d, "r")
    loops, fns = {}, {}
    for f, ff in (ob.get("loops") or {}).items():
        loops[f] = {}
        for fn, anns in ff.items():
            loops[f][fn] = {o: (a if o == "n" else ("", a[1] if isinstance(a, tuple) else None)) for o, a in anns.items()}
            fns[fn] = max([o + 1 for o in anns if o != "n"] + [anns.get("n", 0)])
    try:
        copy_sources(root, loops, ob.get("stub"))
    except AnnotateError as e:
        return None, "annotation: %s" % e
    spec = os.path.join(VERIF, "spec", ob["file"])
    g = os.path.join(d, "b.gb")
    c = ["goto-cc", "-DVP_CBMC", "-U__OPTIMIZE__", "-w"] + incs(root) + GLIBC + DEFS + ob.get("defs", [])
    c += ["--function", ob["entry"], spec] + [os.path.join(VERIF, "lib", m) for m in ob.get("models", ["gmodel.c"])] + ["-o", g]
    rc, o, e, t = run(c, 120)
    if rc != 0:
        return None, "goto-cc: " + (e + o)[-500:]
    if ob.get("enforce") or ob.get("replace"):
        gi = ["goto-instrument", "--dfcc", ob["entry"]]
        for f in ob.get("enforce", []):
            gi += ["--enforce-contract", f]
        for f in ob.get("replace", []):
            gi += ["--replace-call-with-contract", f]
        rc, o, e, t = run(gi + [g, g + ".i"], 120)
        if rc != 0:
            return None, "goto-instrument: " + (e + o)[-500:]
        g += ".i"
    us = ["%s.%d:%d" % (fn, i, bound + 1) for fn, n in fns.items() for i in range(n + 3)]
    if ob.get("unwindset"):
        us.append(ob["unwindset"])
    cb = ["cbmc", g, "--sat-solver", "cadical", "--json-ui", "--trace", "--slice-formula", "--no-standard-checks", "--unwind", str(ob.get("unwind") or bound + 1), "--no-unwinding-assertions",
          "--unwindset", ",".join(us)] + ob.get("flags", [])
    rc, o, e, t = run(cb, 90 * (3 if tier == "thorough" else 1), mem_gb=10)
    try:
        props = [p for item in json.loads(o) if isinstance(item, dict) for p in item.get("result", [])]
    except ValueError:
        return None, "rc=%s" % rc
    if not props:
        return None, "no result: %s" % (o + e)[-300:]
    bad = []
    for p in props:
        if p["status"] != "FAILURE" or not p.get("description", "").startswith("VP ") or p.get("description", "").startswith("VP LOOP"):
            continue
        loc = p.get("sourceLocation", {}) or {}
        ch = [int(s["value"]["binary"], 2) for s in p.get("trace", []) if s.get("stepType") == "assignment" and s.get("lhs") == "vp_byte" and s.get("value", {}).get("binary")]
        bad.append(dict(property=p["property"], desc=p["description"], fn=loc.get("function"), choices=ch,
                        where="%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?"))))
    return bad, "%.1fs, %d checks" % (t, len(props))


# ------------------------------------------------------------------- native
# -fno-builtin-str*: keep str* calls out of line so ASan's interceptors see them
SAN = ["-g", "-O1", "-w", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds",
       "-fno-common"]
LIBIRC = ["client", "connection", "gnutls", "isupport", "line", "linestack", "listener", "redirect", "state",
          "transport", "transport_ioc", "url", "util"]


def repo_units():
    u = []
    for d in ("libirc", "src"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c") and (d, f) not in (("src", "main.c"), ("src", "admin-cmd.c")):
                u.append(d + "/" + f)
    return u


class Native:
    def __init__(self, scratch):
        self.s = scratch
        self.root = scratch.path("n")
        self.err = None
        self.built = None
        self.lock = threading.Lock()

    def build(self, pool):
        os.makedirs(self.root, exist_ok=True)
        futs = []
        for u in repo_units():
            out = os.path.join(self.root, u.replace("/", "_")[:-2] + ".o")
            cmd = ["gcc", "-std=gnu89"] + SAN + incs(REPO) + GLIBC + DEFS + ["-c", os.path.join(REPO, u), "-o", out]
            futs.append((u, out, pool.submit(run, cmd, 200, None, None, 0)))
        self.objs = {}
        for u, o, f in futs:
            rc, so, se, t = f.result()
            if rc != 0:
                self.err = "compile %s: %s" % (u, se[-1500:])
            self.objs[u] = o
        return self.err is None

    def link(self, drv):
        """drv: file in spec/, with 'includes': repo units textually included"""
        out = os.path.join(self.root, "drv_" + os.path.basename(drv["file"])[:-2])
        o = out + ".o"
        cmd = ["gcc", "-std=gnu99"] + SAN + incs(REPO) + GLIBC + DEFS + drv.get("defs", []) + ["-c", os.path.join(VERIF, "spec", drv["file"]), "-o", o]
        rc, so, se, t = run(cmd, 200, mem_gb=0)
        if rc != 0:
            return None, "compile %s: %s" % (drv["file"], se[-2500:])
        ro = os.path.join(self.root, "drvrt.o")
        with self.lock:
            if not os.path.exists(ro):
                rc, so, se, t = run(["gcc", "-std=gnu99", "-O1", "-g", "-w"] + incs(REPO) + GLIBC + ["-c", os.path.join(VERIF, "lib", "drv.c"), "-o", ro], 100, mem_gb=0)
                if rc != 0:
                    return None, "compile drv.c: " + se[-1500:]
        objs = [p for u, p in self.objs.items() if u not in drv.get("includes", [])]
        wraps = ["-Wl,--wrap=" + w for w in drv.get("wrap", [])]
        cmd = ["gcc"] + SAN + ["-o", out, o, ro] + objs + wraps + ["-L/usr/lib/x86_64-linux-gnu/mit-krb5", "-lgssapi_krb5",
               "-lgcrypt", "-lreadline", "-lgnutls"] + GLIBL + ["-lm", "-rdynamic"]
        rc, so, se, t = run(cmd, 200, mem_gb=0)
        if rc != 0:
            return None, "link %s: %s" % (drv["file"], se[-2500:])
        return out, None


DRVENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0",
              TZ="UTC", LC_ALL="C", HOME="/nonexistent")


def parse_drv(o):
    r = {}
    for line in o.splitlines():
        k, sep, v = line.partition(":")
        if sep and k in ("runs", "skipped", "distinct", "exhausted", "failed", "msg", "choices", "raw"):
            r[k] = v.strip()
    return r


def run_harness(binary, h, tier, sdir):
    secs = h.get("time", 8) * (h.get("thorough_mult", 6) if tier == "thorough" else 1)
    out = dict(harness=h["name"], mode=h.get("mode", "random"))
    cmd = [binary, "--harness", h["name"], "--time", str(secs), "--seed", str(SEED)]
    if h.get("mode") == "exhaustive":
        cmd += ["--exhaustive"]
    t0 = time.time()
    os.makedirs(sdir, exist_ok=True)
    rc, o, e, t = run(cmd, secs + 60, cwd=sdir, env=DRVENV, mem_gb=0)
    r = parse_drv(o)
    out.update(runs=int(r.get("runs", 0)), distinct=int(r.get("distinct", 0)), skipped=int(r.get("skipped", 0)),
               exhausted=r.get("exhausted") == "1", time=time.time() - t0)
    if r.get("failed") == "1":
        out.update(failed=True, msg=r.get("msg", ""), choices=r.get("choices", ""), raw=r.get("raw", "0"), stderr=e[-6000:])
    elif rc != 0 or not r:
        out.update(error="driver rc=%s %s" % (rc, e[-800:]))
    return out


def replay(binary, harness, choices, raw, sdir):
    os.makedirs(sdir, exist_ok=True)
    p = os.path.join(sdir, "replay.in")
    with open(p, "w") as f:
        f.write("raw: %s\nchoices: %s\n" % (raw, choices))
    rc, o, e, t = run([binary, "--harness", harness, "--replay", p], 60, cwd=sdir, env=DRVENV, mem_gb=0)
    r = parse_drv(o)
    return r.get("failed") == "1", r, o, e
