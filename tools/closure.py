#!/usr/bin/env python3
"""Which unit discharges each contract that another unit assumes (external_body).  Prints the contracts of functions of /repo that no
unit proves (must be none) and exits 1 if there are any."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
U = json.load(open(V + "/units/units.json"))
proved, used = {}, {}
with tempfile.TemporaryDirectory() as tmp:
    for u in sorted({u for p in U["properties"].values() for u in p["units"]}):
        subprocess.run([V + "/tools/vex/target/release/vex", REPO + "/src", V + "/units/%s.vspec" % u, tmp + "/u.rs", tmp + "/u.json"], check=True)
        for f in json.load(open(tmp + "/u.json"))["functions"]:
            (used if f["extern"] else proved).setdefault((f["file"], f["fn"]), []).append(u)
open_ = sorted(set(used) - set(proved))
for k in sorted(proved):
    print("%-40s %-60s proved in %s%s" % (k[0], k[1], ", ".join(proved[k]), "; used in %d units" % len(used.get(k, []))))
print("%d functions of /repo under contract; contracts nowhere discharged: %s" % (len(proved), open_ or "none"))
sys.exit(1 if open_ else 0)
