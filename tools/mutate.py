#!/usr/bin/env python3
"""mutate.py PROP N SEED [file...]: small edits of the property's files in a scratch clone; which ones does the check see? (development tool, used by no check)"""
import json, os, random, re, subprocess, sys
prop, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
V = "/verif"; M = os.environ.get("MU", "/tmp/mu")
if not os.path.exists(M): subprocess.check_call(["git", "clone", "-q", "/repo", M])
subprocess.check_call(["git", "-C", M, "checkout", "-q", "--", "."]); subprocess.call(["git", "-C", M, "pull", "-q"])
if not files:
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        if d["id"] == prop: files = [f for f in json.dumps(d).split('"') if f.startswith("tachyon/") and ":" not in f]
files = sorted({f for f in files if os.path.isfile(M + "/" + f)})
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " += "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r"\bother\.", "this->"), (r"\bx_?\b", "y"), (r"\by_\b", "x_"), (r" << ", " >> "), (r" >> ", " << "), (r" % ", " / "), (r" / ", " % "), (r"!", ""), (r"std::min", "std::max"), (r"std::max", "std::min"), (r"\blhs\b", "rhs"), (r"\bbegin\(\)", "begin() + 1"), (r"\bsize\(\)", "size() - 1"), (r"IsZero", "IsOne"), (r"IsOne", "IsZero"), (r"Double", "Square"), (r"InPlace\(\)", "InPlace(), (void)0"), ("DEL", "")]
cands = []
for f in files:
    incls = 0
    for i, l in enumerate(open(M + "/" + f)):
        t = l.strip()
        if not t or t.startswith(("//", "#", "*", "template", "using", "static_assert", "namespace", "friend", "CHECK", "DCHECK", "LOG", "VLOG", "TRACE", "class", "struct", "enum", "case", "typename", "public", "private", "return os", "<<")) or "LOG(" in t or "ToString" in t or "ToHexString" in t or "enable_if" in t: continue
        for k, (a, b) in enumerate(OPS):
            if a == "DEL":
                if t.endswith(";") and re.match(r"[a-z_0-9\[\]\.\->\*]+(\(.*\)| [-+*|&^]?= .*);$", t) and not t.startswith(("return", "break", "continue")): cands.append((f, i, k, 0))
            else:
                for m in re.finditer(a, l.split("//")[0]): cands.append((f, i, k, m.start()))
random.seed(seed); random.shuffle(cands)
done, seen = 0, set()
for f, i, k, pos in cands:
    if done >= n: break
    if (f, i) in seen: continue
    seen.add((f, i))
    L = open(M + "/" + f).read().split("\n"); old = L[i]; a, b = OPS[k]
    L[i] = "" if a == "DEL" else old[:pos] + re.sub(a, b, old[pos:], count=1)
    if a == "DEL": L[i] = "(void)0;"
    open(M + "/" + f, "w").write("\n".join(L))
    env = dict(os.environ, VERIF_REPO=M, VERIF_EVID="/tmp/mu.ev." + prop, VERIF_FAILFAST="1", VERIF_JOBS=os.environ.get("VERIF_JOBS", "4"))
    p = subprocess.Popen(["python3", V + "/check.py", prop, "--tier", "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try: o, e = p.communicate(timeout=1200); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, e = p.communicate(); rc = "timeout"
    ff = [x for x in o.split("\n") if x.startswith(("FAILFAST", "VIOLATION", "  harness"))]
    st = "build" if "error:" in e and not ff else "killed" if ff else "SURVIVED" if rc == 0 else "rc=%s" % rc
    if st == "build" : pass
    else: done += 1
    if st != "build": print("%s %s %s:%d  [%s] -> [%s] %s" % (prop, st, f, i + 1, old.strip(), L[i].strip(), (ff or [""])[0][:80]), flush=True)
    subprocess.check_call(["git", "-C", M, "checkout", "-q", "--", "."])
