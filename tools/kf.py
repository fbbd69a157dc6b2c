#!/usr/bin/env python3
"""kf.py fixed PROP COMMIT 'what' | kf.py known PROP HARNESS MSG 'what'"""
import json, sys
p = "/verif/known_findings.json"; k = json.load(open(p)); a = sys.argv[1:]
if a[0] == "fixed": k.append(dict(property=a[1], status="fixed", commit=a[2], what=a[3], entry="fixed: property=%s %s %s" % (a[1], a[2], a[3])))
else: k.append(dict(property=a[1], status="known", harness=a[2], msg=a[3], what=a[4]))
json.dump(k, open(p, "w"), indent=1)
