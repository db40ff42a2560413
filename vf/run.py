#!/usr/bin/env python3
"""Runs the solver-based check of one property against /repo's current working tree.

usage: run.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep] [-v]

Per run: the repository's C sources are compiled with goto-cc from the working tree, linked with the
harnesses of the property, and decided by CBMC (symbolic execution to SAT/SMT).  A failed obligation is
replayed natively (gcc + AddressSanitizer, the same harness, the real code) with the solver's values;
only what reproduces is reported as a VIOLATION.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REPO_DIRS = ["src/util", "src/verifier", "src/prover", "src/chains/eth/verifier", "src/chains/eth/ssz",
             "src/chains/eth/prover", "src/chains/eth/zk_verifier", "src/chains/eth/bn254"]
# not buildable offline (external headers), or replaced by models
EXCLUDE = {"src/util/crypto.c", "src/chains/eth/verifier/call_evmone.c", "src/chains/eth/verifier/call_evmc.c",
           "src/chains/eth/bn254/bn254_mcl.c", "src/chains/eth/zk_verifier/main.c"}
EXTRA = ["bindings/colibri.c"]
DEFS = ["C4_SOLVER_HOOKS", "BLOCK_HASH_CACHE", "BLS_DESERIALIZE", 'C4_VERSION="0.1.0-dev"', "CHAIN_ETH", "ETH_ZKPROOF", "FILE_STORAGE",
        "MESSAGES", "PROVER", "PROVER_CACHE", "WITNESS_SIGNER", "PRECOMPILE_ZERO_HASHES",
        'VERIFIERS_PATH="gen/verifiers.h"', 'PROVERS_PATH="gen/provers.h"', 'CHAIN_PROPS_PATH="gen/chain_props.h"']


def incs():
    d = [os.path.join(HARN, "include")] + [os.path.join(REPO, x) for x in REPO_DIRS] + \
        [os.path.join(REPO, x) for x in ["src", "src/chains", "libs/crypto", "libs/intx", "bindings", "src/chains/eth"]]
    return ["-I" + x for x in d]


LIVE = set()
DEADLINE = 0


def _term(sig, frame):
    for p in list(LIVE):
        try:
            os.killpg(p, signal.SIGKILL)
        except OSError:
            pass
    os._exit(143)


def sh(cmd, timeout=None, mem_gb=None, env=None, cwd=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, env=env, cwd=cwd)
    LIVE.add(p.pid)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = "timeout"
    LIVE.discard(p.pid)
    return rc, out.decode("utf8", "replace"), err.decode("utf8", "replace"), time.time() - t


class Build:
    """goto-cc (and, on demand, gcc) objects of the repository's sources, per set of extra defines."""

    def __init__(self, tmp, verbose):
        self.tmp, self.v = tmp, verbose
        self.files = []
        for d in REPO_DIRS:
            p = os.path.join(REPO, d)
            if os.path.isdir(p):
                for f in sorted(os.listdir(p)):
                    if f.endswith(".c") and d + "/" + f not in EXCLUDE:
                        self.files.append(d + "/" + f)
        self.files += [x for x in EXTRA if os.path.exists(os.path.join(REPO, x))]
        self.cache = {}

    def flags(self, defs):
        return ["-D" + x for x in DEFS + list(defs)] + incs() + ["-Wno-incompatible-pointer-types", "-w"]

    def compile(self, tool, src, obj, defs, extra=()):
        cmd = [tool] + (["-D__NO_CTYPE"] if tool == "goto-cc" else []) + list(extra) + self.flags(defs) + ["-c", src, "-o", obj]
        rc, o, e, _ = sh(cmd, timeout=180)
        return None if rc == 0 else "%s: %s" % (src, (e or o)[-2000:])

    def repo_objs(self, tool, defs, pool, extra=(), only=None):
        key = (tool, tuple(defs), tuple(only or ()))
        if key in self.cache:
            return self.cache[key]
        d = tempfile.mkdtemp(dir=self.tmp)
        jobs, objs, failed = [], [], []
        for f in self.files:
            if only and f not in only:
                continue
            o = os.path.join(d, f.replace("/", "_") + ".o")
            jobs.append((f, o, pool.submit(self.compile, tool, os.path.join(REPO, f), o, defs, extra)))
        for f, o, j in jobs:
            r = j.result()
            if r is None:
                objs.append(o)
            else:
                failed.append(f)
                if self.v:
                    print("compile failed:", r, file=sys.stderr)
        self.cache[key] = (objs, failed)
        return self.cache[key]


def part(h, objs):
    """without the parts of the repository the harness does not need (they take the address of free(), which cbmc cannot link)"""
    return [o for o in objs if not any(os.path.basename(o).startswith(p.replace("/", "_") + "_") for p in h.get("skip", ()))]


def link_lib(build, objs, tmp, stubs):
    """one goto binary of all repository sources with the bodies of the stubbed functions removed"""
    lib = os.path.join(tmp, "lib_%s.o" % hashlib.md5(" ".join(sorted(stubs) + objs).encode()).hexdigest()[:12])
    if os.path.exists(lib):
        return lib
    rc, o, e, _ = sh(["goto-cc", "-r", "-o", lib + ".t"] + objs, timeout=300)
    if rc != 0:
        raise RuntimeError("goto link failed: " + (e or o)[-3000:])
    cur = lib + ".t"
    if stubs:
        cmd = ["goto-instrument"]
        for s in stubs:
            cmd += ["--remove-function-body", s]
        rc, o, e, _ = sh(cmd + [cur, lib + ".u"], timeout=300)
        if rc != 0:
            raise RuntimeError("goto-instrument failed: " + (e or o)[-3000:])
        cur = lib + ".u"
    os.rename(cur, lib)
    return lib


def link_harness(h, binary, hobjs, lib):
    rc, o, e, _ = sh(["goto-cc", "--function", h["entry"], "-o", binary + ".t"] + hobjs + [lib], timeout=120)
    if rc != 0:
        return (e or o)[-1500:]
    rc, o, e, _ = sh(["goto-instrument", "--drop-unused-functions", "--slice-global-inits", binary + ".t", binary], timeout=120)
    return None if rc == 0 else (e or o)[-1500:]


def cbmc_cmd(h, binary, tier):
    cmd = ["cbmc", binary, "--function", h["entry"], "--unwind", str(h["unwind"]), "--unwinding-assertions",
           "--no-standard-checks", "--no-malloc-may-fail", "--drop-unused-functions",
           "--object-bits", str(h.get("object_bits", 12)), "--max-field-sensitivity-array-size", str(h.get("fs", 256)), "--sat-solver", h.get("solver", "cadical")]
    if h.get("mem", True):
        cmd += ["--bounds-check", "--pointer-check"]
    fn = h.get("unwindfn")
    if fn:  # per-function bounds, expanded to the loops the current code has
        rc, out, _, _ = sh(["cbmc", "--show-loops", binary, "--function", h["entry"]], timeout=120)
        for m in re.finditer(r"^Loop ((\S+)\.\d+):", out, re.M):
            if m.group(2) in fn:
                cmd += ["--unwindset", "%s:%d" % (m.group(1), fn[m.group(2)])]
    for f, k in h.get("rec", {}).items():  # recursion depth
        cmd += ["--unwindset", "%s:%d" % (f, k)]
    cmd += h.get("flags", [])
    return cmd


def parse_results(out):
    """property list of cbmc's plain output, or None if cbmc did not get to a verdict"""
    if "** Results:" not in out:
        return None
    res, cur = [], ("", "")
    for line in out[out.index("** Results:"):].splitlines():
        m = re.match(r"^(.*) function (\S+)$", line)
        if m and not line.startswith("["):
            cur = (m.group(1), m.group(2))
            continue
        m = re.match(r"^\[([^\]]+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", line)
        if m:
            res.append({"property": m.group(1), "description": m.group(3), "status": m.group(4),
                        "sourceLocation": {"file": cur[0], "function": cur[1], "line": m.group(2) or ""}})
    return res


def classify(r):
    d, p = r.get("description", ""), r.get("property", "")
    if d.startswith("REACH "):
        return "reach"
    if d.startswith("VF "):
        return "assert"
    if d.startswith("BOUND ") or ".unwind." in p or "recursion" in p or "unwinding assertion" in d or ".recursion" in p:
        return "bound"
    if ".no-body." in p or "no body for callee" in d:
        return "nobody"
    return "memory"


def trace_values(out):
    """the values the harness drew, in order (assignments to vf_rec_* in the plain-text trace)"""
    vals = []
    started = False
    for m in re.finditer(r"^(?:State \d+ .*function (\S+) |  (vf_rec_u\d+)=.*\(([01 ]+)\)$)", out, re.M):
        if m.group(2):
            if started:
                vals.append(int(m.group(3).replace(" ", ""), 2))
        else:
            started = m.group(1) != "__CPROVER_initialize"
    return vals


def native_build(build, h, tmp, pool):
    """gcc + AddressSanitizer build of the harness and the real code"""
    san = ["-g", "-O0", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-fno-omit-frame-pointer", "-fcommon"]
    objs, _ = build.repo_objs("gcc", h.get("repo_defs", []), pool, san)
    d = tempfile.mkdtemp(dir=tmp)
    stubs = h["_stubs"]
    use = []
    for o in objs:
        if stubs:
            n = os.path.join(d, os.path.basename(o))
            cmd = ["objcopy"] + ["--weaken-symbol=" + s for s in stubs] + [o, n]
            rc, _, e, _ = sh(cmd, timeout=60)
            use.append(n if rc == 0 else o)
        else:
            use.append(o)
    exe = os.path.join(d, "replay")
    srcs = [os.path.join(HARN, s) for s in [h["src"]] + h.get("models", [])]
    hobj = []
    for s in srcs + [os.path.join(HARN, "vf_replay.c")]:
        o = os.path.join(d, os.path.basename(s) + ".h.o")
        r = build.compile("gcc", s, o, list(h.get("defs", [])) + list(h.get("repo_defs", [])) + ["VF_REPLAY", "VF_ENTRY=" + h["entry"]], san)
        if r:
            return None, r
        hobj.append(o)
    lib = os.path.join(d, "librepo.a")
    sh(["ar", "rcs", lib] + use, timeout=60)
    rc, o, e, _ = sh(["gcc", "-fsanitize=address,bounds", "-fcommon", "-o", exe] + hobj + [lib, "-lm", "-lpthread",
                      "-Wl,--unresolved-symbols=ignore-all", "-no-pie"], timeout=120)
    if rc != 0:
        return None, e[-2000:]
    return exe, None


def replay(exe, values_file, reach=None):
    env = dict(os.environ, VF_VALUES=values_file, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1")
    if reach:
        env["VF_REACH"] = reach
    rc, o, e, t = sh([exe], timeout=30, env=env)
    if rc == "timeout":
        return "hang", "no termination within 30 s"
    if rc == 99:
        m = re.search(r"VF_ASSERTION_FAILED: .*", e)
        return "assert", m.group(0) if m else "assertion"
    if rc == 97 or "AddressSanitizer" in e or "runtime error" in e:
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*)", e)
        fr = re.findall(r"#\d+ \S+ in (\S+) (/\S+)", e)[:4]
        return "memory", (m.group(1) if m else "sanitizer") + " at " + " < ".join("%s (%s)" % x for x in fr)
    if rc == 98:
        return "reached", reach
    if rc == 77:
        return "assumption", "assumption not met"
    if isinstance(rc, int) and (rc < 0 or rc > 100):
        return "crash", "signal/exit %s %s" % (rc, e[-300:])
    return "ok", "rc=%s" % rc


def run_harness(build, h, tier, tmp, pool, verbose):
    res = {"harness": h["name"], "entry": h["entry"], "src": h["src"], "unwind": h["unwind"], "bounds": h.get("bounds", ""),
           "status": None, "detail": "", "queries": 0, "solver_s": 0.0}
    t0 = time.time()
    stubs = list(h.get("stubs", []))
    h["_stubs"] = stubs
    objs, failed = build.repo_objs("goto-cc", h.get("repo_defs", []), pool_compile)
    if failed:
        res["uncompiled"] = failed
    lib = link_lib(build, part(h, objs), os.path.dirname(objs[0]), stubs)
    d = tempfile.mkdtemp(dir=tmp)
    hobjs = []
    for s in [h["src"], "vf_cbmc.c"] + h.get("models", []):
        o = os.path.join(d, os.path.basename(s) + ".o")
        r = build.compile("goto-cc", os.path.join(HARN, s), o, list(h.get("defs", [])) + list(h.get("repo_defs", [])))
        if r:
            res.update(status="error", detail="harness does not compile: " + r[-1500:])
            return res
        hobjs.append(o)
    binary = os.path.join(d, "h.goto")
    e = link_harness(h, binary, hobjs, lib)
    if e:
        res.update(status="error", detail="link: " + e)
        return res
    timeout = min(h.get("timeout", 300), DEADLINE - time.time())
    if timeout < 3:
        res.update(status="inconclusive", detail="time of this run used up")
        return res
    cmd = cbmc_cmd(h, binary, tier)
    if verbose > 1:
        print(" ".join(cmd), file=sys.stderr)
    rc, out, err, dt = sh(cmd + ["--verbosity", "8"], timeout=timeout, mem_gb=h.get("mem_gb", 12))
    res["solver_s"] = round(dt, 2)
    if rc == "timeout":
        res.update(status="inconclusive", detail="time limit %ss" % timeout)
        return res
    results = parse_results(out)
    vcc = re.findall(r"Generated .*VCC.*", out)
    res["vccs"] = vcc[-1] if vcc else ""
    if not results:
        res.update(status="inconclusive" if rc not in (0, 10) else "error", detail="cbmc rc=%s %s %s" % (rc, err[-300:], out[-600:]))
        return res
    res["queries"] = len(results)
    res["functions"] = sorted({r.get("sourceLocation", {}).get("function", "") for r in results
                               if r.get("sourceLocation", {}).get("file", "").startswith(REPO)} - {""})
    by = {}
    for r in results:
        by.setdefault(classify(r), []).append(r)
    res["obligations"] = {k: len(v) for k, v in by.items()}
    fails = [r for r in results if r["status"] == "FAILURE" and classify(r) in ("assert", "memory")]
    bounds = [r for r in by.get("bound", []) if r["status"] == "FAILURE"]
    unreached = [r for r in by.get("reach", []) if r["status"] != "FAILURE" and r["description"][6:] not in h.get("noreach", ())]
    nobody = [r for r in by.get("nobody", []) if r["status"] == "FAILURE"]
    res["unreached"] = [r["description"][6:] for r in unreached]
    res["failed"] = ["%s: %s" % (r["property"], r["description"]) for r in fails]
    res["bound_exceeded"] = ["%s: %s" % (r["property"], r["description"]) for r in bounds]
    res["no_body"] = [r["property"] for r in nobody]
    if not fails and not bounds and not unreached:
        res["status"] = "held"
        res["wall_s"] = round(time.time() - t0, 1)
        return res
    # replay what failed
    exe, err = native_build(build, h, tmp, pool_compile)
    if exe is None:
        res.update(status="error", detail="replay build: " + err)
        return res
    outdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(outdir, exist_ok=True)
    tried = []
    order = [r for r in fails if classify(r) == "assert"] + [r for r in fails if classify(r) == "memory"] + bounds
    seen = set()
    for r in order:
        sig = (r["description"],)
        if sig in seen or len(tried) >= 6:
            continue
        seen.add(sig)
        rc, out, _, _ = sh(cmd + ["--trace", "--property", r["property"]], timeout=max(1, min(timeout, DEADLINE + 60 - time.time())), mem_gb=h.get("mem_gb", 12))
        if rc == "timeout" or "** Results:" not in out:
            tried.append({"obligation": r["property"], "replay": "no trace"})
            continue
        vals = trace_values(out)
        vf = os.path.join(outdir, "%s_%s.values" % (h["prop"], h["name"]))
        with open(vf, "w") as f:
            f.write("\n".join(map(str, vals)) + "\n")
        kind, text = replay(exe, vf)
        tried.append({"obligation": "%s: %s" % (r["property"], r["description"]), "replay": kind, "text": text})
        if kind in ("assert", "memory", "crash", "hang"):
            rp = os.path.join(outdir, "%s_%s.json" % (h["prop"], h["name"]))
            with open(rp, "w") as f:
                json.dump({"property": h["prop"], "harness": h["name"], "source": "harness/" + h["src"], "entry": h["entry"],
                           "defs": h.get("defs", []), "stubs": stubs, "obligation": r["property"], "description": r["description"],
                           "location": r.get("sourceLocation", {}), "native": kind, "native_text": text, "values": vals,
                           "how": "compile the harness with -DVF_REPLAY and /repo's sources (vf/run.py does it), run with VF_VALUES=<values, one per line>"},
                          f, indent=1)
            res.update(status="violated", detail="%s -> native replay: %s" % (r["description"], text), replay=rp, tried=tried)
            res["wall_s"] = round(time.time() - t0, 1)
            return res
    # acceptance that used to be reachable is not any more: replay the recorded witness
    wf = os.path.join(VERIF, "witness", "%s_%s.json" % (h["prop"], h["name"]))
    if unreached and os.path.exists(wf):
        w = json.load(open(wf))
        for r in unreached:
            label = r["description"][6:]
            if label not in w:
                continue
            vf = os.path.join(outdir, "%s_%s.values" % (h["prop"], h["name"]))
            with open(vf, "w") as f:
                f.write("\n".join(map(str, w[label])) + "\n")
            kind, text = replay(exe, vf, label)
            tried.append({"obligation": "REACH " + label, "replay": kind, "text": text})
            if kind != "reached" and kind != "assumption":
                rp = os.path.join(outdir, "%s_%s.json" % (h["prop"], h["name"]))
                json.dump({"property": h["prop"], "harness": h["name"], "source": "harness/" + h["src"], "entry": h["entry"],
                           "description": "no input within the bounds reaches '%s' any more; recorded input no longer does" % label,
                           "native": kind, "native_text": text, "values": w[label]}, open(rp, "w"), indent=1)
                res.update(status="violated", detail="'%s' unreachable for every input within the bounds; recorded input: %s %s" % (label, kind, text),
                           replay=rp, tried=tried)
                res["wall_s"] = round(time.time() - t0, 1)
                return res
    res["tried"] = tried
    if fails:
        res.update(status="inconclusive", detail="solver counterexample does not reproduce natively: " + "; ".join(res["failed"][:3]))
    elif bounds:
        res.update(status="inconclusive", detail="bound too small: " + "; ".join(res["bound_exceeded"][:3]))
    else:
        res.update(status="inconclusive", detail="not reached: " + ", ".join(res["unreached"]))
    res["wall_s"] = round(time.time() - t0, 1)
    return res


def record_witness(build, h, tmp):
    """developer command: stores, per REACH label, the solver's values that reach it on the current tree"""
    h["_stubs"] = list(h.get("stubs", []))
    objs, _ = build.repo_objs("goto-cc", h.get("repo_defs", []), pool_compile)
    lib = link_lib(build, part(h, objs), os.path.dirname(objs[0]), h["_stubs"])
    d = tempfile.mkdtemp(dir=tmp)
    hobjs = []
    for s in [h["src"], "vf_cbmc.c"] + h.get("models", []):
        o = os.path.join(d, os.path.basename(s) + ".o")
        build.compile("goto-cc", os.path.join(HARN, s), o, list(h.get("defs", [])) + list(h.get("repo_defs", [])))
        hobjs.append(o)
    binary = os.path.join(d, "h.goto")
    link_harness(h, binary, hobjs, lib)
    cmd = cbmc_cmd(h, binary, "quick")
    rc, out, err, dt = sh(cmd, timeout=h.get("timeout", 300))
    exe, e = native_build(build, h, tmp, pool_compile)
    w = {}
    for r in parse_results(out) or []:
        if classify(r) == "reach" and r["status"] == "FAILURE":
                rc, out, _, _ = sh(cmd + ["--trace", "--property", r["property"]], timeout=h.get("timeout", 300))
                vals = trace_values(out)
                label = r["description"][6:]
                vf = os.path.join(d, "v")
                open(vf, "w").write("\n".join(map(str, vals)) + "\n")
                k, t = replay(exe, vf, label) if exe else ("nobuild", e)
                print(h["name"], label, len(vals), k, t)
                if k == "reached":
                    while vals and vals[-1] == 0:
                        vals.pop()
                    w[label] = vals
    os.makedirs(os.path.join(VERIF, "witness"), exist_ok=True)
    json.dump(w, open(os.path.join(VERIF, "witness", "%s_%s.json" % (h["prop"], h["name"])), "w"))


def main():
    global pool_compile
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--witness", action="store_true")
    ap.add_argument("--limit", type=int, help="development: time limit per harness in seconds")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="count", default=0)
    a = ap.parse_args()
    if a.selftest:
        for t in ("cbmc", "goto-cc", "goto-instrument", "gcc"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        return 0
    tier = a.tier or "quick"
    global DEADLINE
    DEADLINE = time.time() + (720 if tier == "quick" else 6 * 3600)
    from checks import harnesses, PROPS
    hs = [h for h in harnesses(a.prop, tier) if not a.only or re.fullmatch(a.only, h["name"])]
    if a.limit:
        for h in hs:
            h["timeout"] = a.limit
    if not hs:
        print("no harness for", a.prop)
        return 2
    signal.signal(signal.SIGTERM, _term)
    signal.signal(signal.SIGINT, _term)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % a.prop)
    pool_compile = cf.ThreadPoolExecutor(8)
    pool = cf.ThreadPoolExecutor(a.j)
    results = []
    try:
        build = Build(tmp, a.v)
        for defs in sorted({tuple(h.get("repo_defs", [])) for h in hs}):
            objs, failed = build.repo_objs("goto-cc", list(defs), pool_compile)
            for st, sk in sorted({(tuple(sorted(h.get("stubs", []))), tuple(h.get("skip", ()))) for h in hs if tuple(h.get("repo_defs", [])) == defs}):
                link_lib(build, part({"skip": sk}, objs), os.path.dirname(objs[0]), list(st))
        if a.witness:
            for h in hs:
                record_witness(build, h, tmp)
            return 0
        hs.sort(key=lambda h: -h.get("weight", 1))
        futs = [(h, pool.submit(run_harness, build, h, tier, tmp, pool_compile, a.v)) for h in hs]
        for h, f in futs:
            try:
                r = f.result()
            except Exception as ex:
                r = {"harness": h["name"], "status": "error", "detail": repr(ex), "queries": 0, "solver_s": 0}
            results.append(r)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get("open", []) if k["property"] == a.prop]
    bad = 0
    for r in results:
        line = "  %-28s %-12s %5d obligations %7.1fs  %s" % (r["harness"], r["status"], r.get("queries", 0), r.get("solver_s", 0), r.get("detail", "").replace("\n", " ")[-300 if r["status"] == "error" else 0:][:400])
        print(line)
        if a.v and r.get("tried"):
            print(json.dumps(r["tried"], indent=1))
        if a.v and r.get("bound_exceeded"):
            print("   bounds:", r["bound_exceeded"][:10])
        if a.v and r.get("no_body"):
            print("   no body:", r["no_body"][:20])
        if r["status"] == "violated":
            k = next((k for k in known if k["harness"] == r["harness"] and k["obligation"] in r["detail"]), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
                r["status"] = "known"
            else:
                bad += 1
                print("VIOLATION property=%s replay=%s" % (a.prop, r["replay"]))
    wall = time.time() - t0
    if not a.only:
        write_evidence(a.prop, tier, hs, results, wall, bad, PROPS[a.prop])
    n = {}
    for r in results:
        n[r["status"]] = n.get(r["status"], 0) + 1
    print("%s %s: %s in %.1fs" % (a.prop, tier, ", ".join("%d %s" % (v, k) for k, v in n.items()), wall))
    if n.get("error"):
        print("ERROR in harness machinery (see above)")
    return 1 if bad else 0


def write_evidence(prop, tier, hs, results, wall, bad, info):
    fns = sorted({f for r in results for f in r.get("functions", [])})
    total = sum(r.get("queries", 0) for r in results)
    done = sum(r.get("queries", 0) for r in results if r["status"] in ("held", "violated", "known"))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": info.get("level", "other"),
        "coverage": {
            "explanation": "Bounded symbolic execution of the real C code by CBMC (bit-precise, SAT back end), regenerated from /repo's working tree. "
                           "Every obligation counted as discharged holds for every value within the bounds stated per harness; nothing is claimed outside them.",
            "obligations": total,
            "discharged": done,
            "solver_s": round(sum(r.get("solver_s", 0) for r in results), 1),
            "functions_encoded": fns,
            "harnesses": [{k: r.get(k) for k in ("harness", "entry", "src", "unwind", "bounds", "status", "queries", "obligations", "vccs", "solver_s", "detail",
                                                  "unreached", "bound_exceeded", "uncompiled", "no_body", "tried") if r.get(k)} for r in results],
        },
        "assumptions": info.get("assumptions", []) + ["memory allocation does not fail", "64-bit little-endian data model, gcc/CBMC C semantics"],
        "wall_s": round(wall, 1), "violations": bad,
    }
    p = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    json.dump(ev, open(p, "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
