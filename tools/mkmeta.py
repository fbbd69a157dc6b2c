#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + "/tools"]
from props import PR
from checks import PROPS
NA = {}
if os.path.exists(V + "/tools/na.json"): NA = json.load(open(V + "/tools/na.json"))
with open(V + "/properties.jsonl", "w") as f:
    for p in PR: f.write(json.dumps(p) + "\n")
TA = "symbolic execution over formal polynomials: the real C++ templates are instantiated with a symbolic field; solver (Z3 + exact linear/ideal-membership elimination mod p) decides every assertion"
TL = "symbolic execution of the clang LLVM IR of the real code (all paths, Z3 bit-vectors / linear integer encoding), counterexamples replayed on the g++ build"
checks, na = [], []
for p in PR:
    i = p["id"]
    if i in PROPS and i not in NA:
        q = PROPS[i]; eng = {u["engine"] for u in q["units"]}
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique="solver-based checking: " + "; ".join([TL] * ("L" in eng) + [TA] * ("A" in eng)), level=q.get("level", "model_checking"),
            level_note="bounds: %s; outside: %s; assumed: %s" % (q.get("bounds", "see DESIGN.md"), q.get("outside", "-") or "-", q.get("assumes", "-") or "-")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
    notes="Each check rebuilds the harnesses from /repo's working tree and executes the real code symbolically; see DESIGN.md. No hooks in /repo are needed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks", len(na), "na")
