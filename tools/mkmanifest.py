#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and tools/claims.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claims = json.load(open(V + "/tools/claims.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    c = claims.get(i)
    if c and os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s" % i,
            "thorough_cmd": "env VERIF_TIER=thorough python3 check.py %s" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": (c or {}).get(
            "na", "Its check is not built yet.")})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup_check.py",
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds the instrumented programs it needs from "
              "/repo's working tree into /verif/build (ignored by git). No "
              "hooks are compiled into /repo: the monitors observe the real "
              "programs through their interfaces, the sanitizers, /proc and "
              "LD_PRELOAD shims."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
