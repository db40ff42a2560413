#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the texts below (developer command; both results are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def p(id, title, statement, over, text, why, files, mech, note, state=None, observe=None, na=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a, "_note": note, "_na": na})


exec(open(os.path.join(V, "vf", "proptexts.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != "_"}) + "\n")
TRUST = " Trusted: CBMC 6.11 (C semantics, memory model) and its SAT solver, goto-cc, and the harness' reference oracle; nothing is claimed outside the stated bounds."
m = {"version": 1, "setup_cmd": "python3 vf/run.py --selftest",
     "checks": [{"property": x["id"], "quick_cmd": "python3 vf/run.py %s --tier quick" % x["id"], "thorough_cmd": "python3 vf/run.py %s --tier thorough" % x["id"],
                 "evidence_file": "evidence/%s.json" % x["id"], "technique": "bounded symbolic execution of the real C code with CBMC (SAT), native replay of counterexamples",
                 "level": "model_checking", "level_note": x["_note"] + TRUST} for x in P if not x["_na"]],
     "hooks": {"guard": "C4_SOLVER_HOOKS", "enable": "vf/run.py passes -DC4_SOLVER_HOOKS to goto-cc and gcc", "source_commits": ["d0bb29a"]},
     "not_applicable": [{"property": x["id"], "reason": x["_na"]} for x in P if x["_na"]],
     "notes": "Every check recompiles /repo's working tree with goto-cc, executes the real functions symbolically, and lets the SAT solver decide each assertion for all values within the bounds. A counterexample is reported only if it reproduces natively (gcc + AddressSanitizer). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
