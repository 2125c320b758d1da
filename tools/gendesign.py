"""Writes DESIGN.md from tools/DESIGN.in.md, sa/registry.py, properties.jsonl and the planted bugs' descriptions."""
import json, os, sys, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from sa.registry import CHECKS, NA
out = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    out.append("### %s — %s\n" % (i, p["title"]))
    if i in CHECKS:
        c = CHECKS[i]
        out.append("*Technique*: %s.  *Code*: %s.\n" % (c["tech"], ", ".join("`sa/checks/%s.py:%s`" % x for x in c["parts"])))
        out.append(c["rule"] + "\n")
        out.append("*Bounds*: " + (c.get("bounds") or "none beyond the classes named in the rule; within them every input is covered.") +
                   "  *Why beyond tests*: " + p.get("why_tests_cant", "") + "\n")
        if c.get("assumptions"):
            out.append("*Assumes*: " + "; ".join(c["assumptions"]) + "\n")
    else:
        out.append("Not applicable: " + NA.get(i, "no check built yet.") + "\n")
seed = ["| change | breaks | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seed.append("| %s | %s: %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"], ", ".join(d.get("caught_by", [])) or "not recorded"))
t = open(os.path.join(H, "tools", "DESIGN.in.md")).read()
open(os.path.join(H, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(seed)))
