#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import jobs as J
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = J.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.PROPS:
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s --tier quick" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "technique": "symbolic execution of the crate's LLVM IR, z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: " + J.PROPS[i]["bounds"] + ". Outside: " + J.PROPS[i].get("outside", "larger sizes and longer histories") +
            ". Trusts the executor's model of LLVM IR (explored paths are replayed natively) and z3.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the harnesses use the crate's public API. See DESIGN.md.",
}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
