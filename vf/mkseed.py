#!/usr/bin/env python3
"""developer command: mkseed.py SPEC.py [--nocheck]  -> /verif/seeded/<id>/ after confirming build, tests, demo and check.
SPEC.py defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (C source) and optionally SRCS, DEFS, FILES."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]
UTIL = ["src/util/bytes.c", "src/util/json.c", "src/util/json_validate.c", "src/util/ssz.c", "src/util/ssz_merkle.c", "src/util/ssz_builder.c", "src/util/state.c", "src/util/logger.c", "src/util/chains.c", "src/util/version.c"]
d = os.path.join(V, "seeded", ID)
os.makedirs(d, exist_ok=True)
srcs = ns.get("SRCS", UTIL)
if srcs == "all":
    srcs = []
srcs = [s for s in srcs if os.path.exists(os.path.join(R, s))]
DEFS = '-DBLOCK_HASH_CACHE -DBLS_DESERIALIZE -DC4_VERSION=\\"0.1.0-dev\\" -DCHAIN_ETH -DETH_ZKPROOF -DFILE_STORAGE -DMESSAGES -DPROVER -DPROVER_CACHE -DWITNESS_SIGNER -DPRECOMPILE_ZERO_HASHES -DTEST'
extra = ns.get("DEFS", "")
allsrc = ns.get("SRCS") == "all"
open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
# builds the demonstration against the sources in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
INC="-I$D -I$R/src -I$R/src/util -I$R/src/verifier -I$R/src/prover -I$R/src/chains -I$R/src/chains/eth -I$R/src/chains/eth/verifier -I$R/src/chains/eth/ssz -I$R/src/chains/eth/prover -I$R/src/chains/eth/zk_verifier -I$R/src/chains/eth/bn254 -I$R/libs/crypto -I$R/libs/intx -I$R/bindings"
DEF="%s %s"
%s
gcc -w -g -O0 -fsanitize=address -fcommon $DEF $INC "$D/demo.c" $S -o "$T/demo" -no-pie -lm -lpthread -Wl,--unresolved-symbols=ignore-all || exit 3
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''' % (DEFS, extra,
       ('''S=""
for f in $R/src/util/*.c $R/src/verifier/*.c $R/src/prover/*.c $R/src/chains/eth/verifier/*.c $R/src/chains/eth/ssz/*.c $R/src/chains/eth/prover/*.c $R/bindings/colibri.c $R/libs/crypto/sha2.c $R/libs/crypto/sha3.c $R/libs/crypto/memzero.c; do
  case $f in */crypto.c | */call_evmone.c | */call_evmc.c%s) ;; *) S="$S $f" ;; esac
done
DEF="$DEF -DVERIFIERS_PATH=\\"verifiers.h\\" -DPROVERS_PATH=\\"provers.h\\" -DCHAIN_PROPS_PATH=\\"chain_props.h\\""''' % "".join(" | */" + x for x in ns.get("OMIT", []))) if allsrc else
       'S="' + " ".join("$R/" + s for s in srcs) + '"'))
os.chmod(os.path.join(d, "demo.sh"), 0o755)
open(os.path.join(d, "demo.c"), "w").write(ns["DEMO"])
if allsrc:
    for f in ("verifiers.h", "provers.h", "chain_props.h"):
        open(os.path.join(d, f), "w").write(open(os.path.join(V, "harness/include/gen", f)).read())
for f, t in ns.get("FILES", {}).items():
    open(os.path.join(d, f), "w").write(t)
json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
r = sh("bash %s/demo.sh" % d, cwd=R)
print("demo on clean:", r.returncode, (r.stdout + r.stderr)[-600:] if r.returncode else "")
ok = r.returncode == 0
try:
    for f, a, b in ns["EDITS"]:
        s = open(os.path.join(R, f)).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(os.path.join(R, f), "w").write(s.replace(a, b))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
    r = sh("bash /tmp/t.sh")
    print("tests:", r.stdout.strip()[-200:])
    ok &= "missing: []" in r.stdout
    r = sh("bash %s/demo.sh" % d, cwd=R)
    print("demo on patched:", r.returncode, (r.stdout + r.stderr)[-300:])
    ok &= r.returncode not in (0, 3)
    if "--nocheck" not in sys.argv:
        r = sh("python3 vf/run.py %s --tier quick" % ns["PROP"], cwd=V)
        print("check:", r.returncode, [l for l in r.stdout.splitlines() if " held " not in l][:8])
finally:
    sh("git -C /repo checkout -- .")
print(ID, "OK" if ok else "NOT OK")
