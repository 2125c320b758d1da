"""Writes MANIFEST.json from sa/registry.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.registry import CHECKS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "technique": "static analysis: " + c["tech"], "level": c["level"],
                       "level_note": c.get("note") or ("Every obligation is decided from the current source for all inputs in its class; trusts " + "; ".join(c["trusted"]) + (". Bounds: " + c["bounds"] if c.get("bounds") else "") + ". Obligations that the domains cannot decide are reported as undecided and raise no alarm.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they read /repo's current sources through clang, javac and the assembler and never run the library. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
