#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V, V + "/tools"]
from props import PR
from checks import PROPS
o = open(V + "/tools/design_head.md").read() + "## Properties\n\n"
NA = json.load(open(V + "/tools/na.json")) if os.path.exists(V + "/tools/na.json") else {}
for p in PR:
    q = PROPS.get(p["id"])
    o += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    if not q or p["id"] in NA: o += "Not applicable: %s\n\n" % NA.get(p["id"], "-"); continue
    eng = sorted({u["engine"] for u in q["units"]})
    o += "- *decided by*: engine %s; harness %s\n- *real code executed symbolically*: %s\n- *for all*: %s\n- *bounds*: %s\n- *outside*: %s\n- *assumed*: %s\n- *why tests cannot*: %s\n" % (" and ".join(eng), ", ".join(sorted({"`harness/%s`" % u["src"] for u in q["units"]})), q["functions"], p["quantifier"]["text"], q["bounds"], q["outside"] or "nothing further", q["assumes"] or "nothing", p["why_tests_cant"])
    e = V + "/evidence/%s.json" % p["id"]
    if q.get("cost"): o += "- *cost*: %s\n" % q["cost"]
    o += "\n"
k = json.load(open(V + "/known_findings.json")); f = ""
for x in k: f += "* %s %s: %s\n" % (x["property"], ("fixed by " + x["commit"]) if x.get("status") == "fixed" else "**known finding** (harness %s)" % x["harness"], x["what"])
s = "| bug | property | needs | caught |\n|---|---|---|---|\n"
C = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d)); s += "| %s | %s | %s | %s |\n" % (d, m["property"], m["needs"], C.get(d, "yes"))
open(V + "/DESIGN.md", "w").write(o + open(V + "/tools/design_tail.md").read().replace("@FINDINGS@", f).replace("@SEEDS@", s))
