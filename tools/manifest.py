#!/usr/bin/env python3
"""rewrites MANIFEST.json from units/units.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = json.load(open(V + "/units/units.json"))
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = U["not_applicable"]
checks, na = [], []
for p in P:
    c = U["properties"].get(p["id"])
    if c:
        checks.append({"property": p["id"], "quick_cmd": "./check.py %s --tier quick" % p["id"], "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
                       "technique": "contract-based deductive verification: Verus contracts on the real functions, extracted mechanically on every run",
                       "level": "proof", "level_note": c["note"]})
        if c.get("theorems"):
            checks[-1]["theorems"] = c["theorems"]
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "its contracts are not written yet")})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(starry_verif)", "enable": 'RUSTFLAGS="--cfg starry_verif"', "source_commits": ["106535aad6809530ee95e6f5bb537d6e4933f632"]},
     "checks": checks, "not_applicable": na,
     "notes": "Each check regenerates its Verus units from /repo's sources, has every obligation discharged, probes the contracts for vacuity, and runs the property's executable oracle against the real crate (counterexamples, and the labelled bounded stand-in when a unit cannot be regenerated). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
