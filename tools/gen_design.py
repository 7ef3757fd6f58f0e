#!/usr/bin/env python3
# writes the per-property section of DESIGN.md (between the markers) from specs.py and properties.jsonl
import json, re, sys
sys.path.insert(0, "/verif")
from specs import CHECKS
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
out = []
for p in P:
    c = CHECKS[p["id"]]
    q = ["%s%s%s" % (r.get("driver") or r["cmd"], " (" + r["san"] + ")" if "san" in r else "", " x%d" % r["shards"] if r.get("shards", 1) > 1 else "") for r in c["runs"] if not r.get("tier")]
    t = ["%s (%s)" % (r.get("driver"), r["san"]) for r in c["runs"] if r.get("tier") == "thorough"]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("- Runs: %s%s." % (", ".join(q), "; thorough also " + ", ".join(t) if t else "; thorough: the same with more and larger cases"))
    out.append("- Oracle: %s." % c["technique"].replace("runtime monitoring: ", "").rstrip("."))
    out.append("- Explored: %s." % c["rule"].rstrip("."))
    out.append("- Floor of observed events (quick; fewer is no answer): %s." % ", ".join("%s %d" % kv for kv in sorted(c.get("min_events", {}).items())))
    out.append("- Limits: %s\n" % c["note"])
s = open("/verif/DESIGN.md").read()
s = re.sub(r"(<!-- generated -->\n).*(<!-- end -->)", lambda m: m.group(1) + "\n".join(out) + m.group(2), s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
