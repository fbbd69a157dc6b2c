#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ for each entry of SEEDS (id, prop, needs, breaks, edits, demo, extra)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -w %s -I. -I_build/bazel-out/k8-opt/bin -isystem /opt/vp/tachyon_build/include "$D/demo.cc" %s -o "$T/demo" -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lglog -lgmpxx -lgmp -pthread || exit 3
timeout 120 "$T/demo"
'''
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = V + "/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    diff = ""
    for f, old, new in s["edits"]:
        t = open("/repo/" + f).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
    files = {}
    for f, old, new in s["edits"]: files[f] = files.get(f, open("/repo/" + f).read()).replace(old, new)
    for f, t in files.items():
        o = "/tmp/seed.tmp"; open(o, "w").write(t)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, o], capture_output=True, text=True)
        diff += r.stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(s["demo"])
    fl = s.get("flags", "")
    if s.get("stubs"):
        subprocess.run(["rm", "-rf", d + "/stubs"]); subprocess.run(["cp", "-r", V + "/engine/stubs", d + "/stubs"]); fl += ' -isystem "$D/stubs"'
    open(d + "/demo.sh", "w").write(DEMO % (fl, s.get("extra", ""))); os.chmod(d + "/demo.sh", 0o755)
    for f, t in s.get("files", {}).items(): open(d + "/" + f, "w").write(t if t else open(V + "/harness/" + f).read())
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
