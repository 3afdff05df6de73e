#!/usr/bin/env python3
"""writes MANIFEST.json from tools/spec.py and properties.jsonl"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "tools"))
import spec
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in spec.S:
        s = spec.S[i]
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": "symbolic execution of the compiled LLVM IR, SAT/SMT decision of every assertion, native replay of counterexamples",
            "level": s["level"],
            "level_note": ("Decided for all values within: " + s["bounds"] + ". Trusted: rustc/LLVM lowering, the engine's IR semantics (witnesses replayed natively), "
                           "the SAT solver, the reference model. " + s["note"]).strip(),
        })
    else:
        na.append({"property": i, "reason": spec.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use the public API only."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
