#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the code in /repo.

usage: check.py <property id> [--tier quick|thorough] [--keep] [--only HARNESS]

Everything is rebuilt from /repo's working tree in a scratch directory: the engine (LLVM pass and runtime), the
generated configuration headers, the instrumented harnesses, and - when a solver counterexample must be
confirmed - the natively compiled replay binary.
"""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VP = "/opt/vp/tachyon_build"
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
sys.path.insert(0, VERIF)
from checks import PROPS  # noqa

JOBS = int(os.environ.get("VERIF_JOBS", "8"))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = run(cmd, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(c for c in cmd if "libabsl" not in c)[-1500:], r.stdout[:6000]))
    return r.stdout


def absl_libs():
    d = "/usr/lib/x86_64-linux-gnu"
    return ["-Wl,--start-group"] + sorted(glob.glob(d + "/libabsl_*.a")) + ["-Wl,--end-group"]


class Builder:
    def __init__(self, work):
        self.w = work
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.gen = None

    # -- engine ---------------------------------------------------------------
    def engine(self):
        """compile the pass and the runtimes (shared cache keyed by source content, /verif/build)"""
        import hashlib
        h = hashlib.sha1()
        for f in sorted(glob.glob(VERIF + "/engine/*/*")):
            if os.path.isfile(f):
                h.update(open(f, "rb").read())
        d = os.path.join(VERIF, "build", h.hexdigest()[:16])
        self.eng = d
        if os.path.exists(d + "/ok"):
            return
        t = tempfile.mkdtemp(prefix="eng.", dir=self.w)
        E = VERIF + "/engine"
        jobs = [
            ["clang++", "-std=c++17", "-fPIC", "-shared", "-O1", "-fno-rtti", "-I/usr/include/llvm-18",
             "-I/usr/include/llvm-c-18", E + "/pass/SymPass.cpp", "-o", t + "/SymPass.so"],
            ["g++", "-std=c++17", "-O2", "-c", E + "/rt/replay.cpp", "-o", t + "/replay.o"],
        ]
        for f in ["rt", "expr", "intp"]:
            jobs.append(["g++", "-std=c++17", "-O2", "-I" + Z3 + "/include", "-c", E + "/rt/%s.cpp" % f, "-o", t + "/%s.o" % f])
        if os.path.exists(E + "/alg/alg.cpp"):
            jobs.append(["g++", "-std=c++17", "-O2", "-I" + Z3 + "/include", "-I" + E + "/rt", "-c", E + "/alg/alg.cpp", "-o", t + "/alg.o"])
        list(self.pool.map(sh, jobs))
        os.makedirs(os.path.dirname(d), exist_ok=True)
        open(t + "/ok", "w").close()
        try:
            shutil.copytree(t, d + ".tmp%d" % os.getpid())
            os.rename(d + ".tmp%d" % os.getpid(), d)
        except OSError:
            self.eng = t

    # -- generated headers ----------------------------------------------------
    def headers(self):
        d = os.path.join(self.w, "gen")
        os.makedirs(d)
        for n in ("tachyon", "third_party", "bazel"):
            if os.path.exists(os.path.join(REPO, n)):
                os.symlink(os.path.join(REPO, n), os.path.join(d, n))
        sh(["python3", VP + "/gen.py", REPO, d])
        outs = []
        for line in open(d + "/build.ninja"):
            m = re.match(r"build (.*?): gen ", line)
            if m:
                outs += [o for o in m.group(1).split() if "/math/" in o and "/c/" not in o and "/cc/" not in o]
        sh(["ninja", "-C", d, "-j", str(JOBS)] + outs)
        self.gen = d + "/bazel-out/k8-opt/bin"

    # -- harnesses --------------------------------------------------------------
    def inc(self):
        r = ["-I" + VERIF + "/engine/rt", "-I" + VERIF + "/engine/alg", "-I" + VERIF + "/harness", "-I" + REPO]
        if self.gen:
            r.append("-I" + self.gen)
        return r + ["-isystem", VP + "/include", "-isystem", VERIF + "/engine/stubs"]

    def compile_L(self, src, obj, flags, plain=False):
        cmd = ["clang++", "-std=c++17", "-O2", "-DNDEBUG", "-pthread", "-DSYM_ENGINE=1"] + self.inc() + [
            "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-mavx2", "-msse3", "-include", VERIF + "/engine/inc/sym_prefix.h",
            "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin-memcmp"] + flags
        if not plain:
            cmd.append("-fpass-plugin=" + self.eng + "/SymPass.so")
        sh(cmd + ["-c", src, "-o", obj])

    def compile_native(self, src, obj, flags, asan=False):
        cmd = ["g++", "-std=c++17", "-O2", "-DNDEBUG", "-pthread", "-w", "-DSYM_NATIVE=1"] + self.inc() + flags
        if asan:
            cmd += ["-fsanitize=address", "-g1"]
        sh(cmd + ["-c", src, "-o", obj])

    def compile_A(self, src, obj, flags):
        sh(["g++", "-std=c++17", "-O1", "-DNDEBUG", "-pthread", "-w", "-DSYM_ALG=1"] + self.inc() + flags + ["-c", src, "-o", obj])

    LIBS = ["-lgmpxx", "-lgmp", "-lglog", "-pthread"]

    def srcpath(self, s):
        return s if s.startswith("/") else (os.path.join(REPO, s[5:]) if s.startswith("repo:") else os.path.join(VERIF, "harness", s))

    def build_unit(self, u, kind):
        """kind: sym | native | asan"""
        tag = re.sub(r"\W", "_", u["src"] + "_" + u.get("tag", "")) + "_" + kind
        binp = os.path.join(self.w, tag)
        if os.path.exists(binp):
            return binp
        srcs = [u["src"]] + u.get("extra", [])
        flags = u.get("flags", [])
        jobs = []
        for i, s in enumerate(srcs):
            o = "%s.%d.o" % (binp, i)
            p = self.srcpath(s)
            fl = flags + (u.get("extra_flags", []) if i else [])
            if kind == "sym":
                f = (self.compile_A if u["engine"] == "A" else self.compile_L)
                jobs.append(lambda f=f, p=p, o=o, fl=fl: f(p, o, fl))
            else:
                fl = fl + ["-mavx2"] if "-mavx2" not in fl and u.get("avx2") else fl
                jobs.append(lambda p=p, o=o, fl=fl: self.compile_native(p, o, fl, kind == "asan"))
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(j) for j in jobs]:
                f.result()
        objs = ["%s.%d.o" % (binp, i) for i in range(len(srcs))]
        cmd = ["g++", "-o", binp] + objs
        if kind == "sym":
            names = ["alg"] if u["engine"] == "A" else ["rt", "expr", "intp"]
            cmd += [self.eng + "/%s.o" % n for n in names] + ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"]
        else:
            cmd += [self.eng + "/replay.o"] + (["-fsanitize=address"] if kind == "asan" else [])
        sh(cmd + absl_libs() + self.LIBS + u.get("libs", []))
        for o in objs:
            os.unlink(o)
        return binp


def run_harness(binp, name, opt, out, seed):
    cmd = [binp, name, "--out", out, "--seed", str(seed), "--time", str(opt["time"])]
    for k in ("qt", "at", "maxpaths"):
        if k in opt:
            cmd += ["--" + k, str(opt[k])]
    cmd = ["prlimit", "--as=%d" % (opt.get("mem", 5) + 4 << 30)] + cmd
    t0 = time.time()
    try:
        r = run(cmd, timeout=opt["time"] + 60)
        rc, txt = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, txt = -9, "timeout"
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            pass
    if res is None:
        res = {"harness": name, "engine_error": "exit %s: %s" % (rc, txt[-500:]), "violations": [], "complete": False}
    res["elapsed"] = round(time.time() - t0, 2)
    return res


def write_input(path, inp):
    with open(path, "w") as f:
        for k, v in inp.items():
            f.write("%s %s\n" % (k.replace(" ", "_"), v.split(":")[-1]))


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.setup:
        w = tempfile.mkdtemp(prefix="vchk.")
        Builder(w).engine()
        shutil.rmtree(w, ignore_errors=True)
        return
    P = PROPS[a.prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vchk.")
    rc = 2
    try:
        rc = check(a, P, seed, work, t0)
    except BuildError as e:
        log("BUILD ERROR (no verdict):\n" + str(e))
        rc = 2
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            log("kept", work)
    sys.exit(rc)


def check(a, P, seed, work, t0):
    thorough = a.tier == "thorough"
    B = Builder(work)
    units = [u for u in P["units"] if thorough or not u.get("thorough_only")]
    fe = B.pool.submit(B.engine)
    if any(u.get("gen", True) for u in units):
        B.headers()
    fe.result()
    log("engine+headers %.1fs" % (time.time() - t0))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        bins = list(ex.map(lambda u: B.build_unit(u, "sym"), units))
    log("harnesses built %.1fs" % (time.time() - t0))
    jobs = []
    for u, b in zip(units, bins):
        names = run([b, "--list"]).stdout.split()
        for n in names:
            if a.only and n != a.only:
                continue
            if n.startswith("T_") and not thorough:
                continue
            opt = dict(time=u.get("time", 150))
            opt.update(u.get("opts", {}))
            opt.update(u.get("per", {}).get(n, {}))
            if thorough:
                opt["time"] *= 8
            jobs.append((u, b, n, opt))
    jobs.sort(key=lambda j: -j[3].get("prio", j[3]["time"]))
    results = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(run_harness, b, n, o, os.path.join(work, "%s.%s.json" % (os.path.basename(b), n)), seed): (u, n) for u, b, n, o in jobs}
        # native replay binaries are built meanwhile (they validate the encoding on the models the solver produced)
        nat = {}
        for u in units:
            nat[id(u)] = ex.submit(B.build_unit, u, "native")
        for f in cf.as_completed(futs):
            u, n = futs[f]
            r = f.result()
            results.append((u, n, r))
            log("%-34s paths=%s asserts=%s undecided=%s viol=%d %.1fs%s" % (n, r.get("paths"), r.get("asserts"), r.get("undecided_asserts"), len(r["violations"]), r["elapsed"], " INCOMPLETE" if not r.get("complete") else ""))
            if r.get("engine_error"):
                log("   ", r["engine_error"])
            if os.environ.get("VERIF_FAILFAST") and (r["violations"] and not any(k["property"] == a.prop and k.get("harness") == n for k in json.load(open(VERIF + "/known_findings.json")))):
                print("FAILFAST %s: %s" % (n, r["violations"][0]["msg"]), flush=True)
                os.killpg(0, 9)
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k["property"] == a.prop and k.get("status") != "fixed"]
    evdir = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, "replay")
    os.makedirs(rep, exist_ok=True)
    bad, unconfirmed, validated, vsamples = [], [], 0, []
    for u, n, r in results:
        for i, v in enumerate(r["violations"]):
            inp = os.path.join(rep, "%s.%s.%d.in" % (a.prop, n, i))
            write_input(inp, v["input"])
            mem = "bounds" in v["msg"] or "free" in v["msg"] or "crash" in v["msg"]
            conf, text = False, ""
            for kind in (["native", "asan"] if mem else ["native"]):
                nb = B.build_unit(u, kind)
                try:
                    rr = run(["prlimit", "--as=%d" % ((8 << 30) if kind == "native" else (1 << 46)), nb, n, inp], timeout=60)
                    text += rr.stdout[-1500:]
                    conf = conf or rr.returncode not in (0, 2) or "REPLAY-FAIL" in rr.stdout
                except subprocess.TimeoutExpired:
                    text += "replay timeout"
                    conf = True
                if conf:
                    break
            with open(inp + ".txt", "w") as f:
                f.write("property %s harness %s (%s)\nassertion: %s\ninput: %s\nconfirmed natively: %s\n%s\n" % (a.prop, n, u["src"], v["msg"], json.dumps(v["input"]), conf, text))
            k = [k for k in known if k["harness"] == n and k["msg"] == v["msg"]]
            if not conf:
                unconfirmed.append({"harness": n, "msg": v["msg"], "input": v["input"]})
                log("UNCONFIRMED", n, v["msg"], v["input"], text[-300:])
            elif k:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k[0]["what"]))
            else:
                bad.append((n, v, inp + ".txt"))
        # validate the encoding: a model of a fully explored path is run through the natively compiled code
        for s in [r.get("sample_input")] + r.get("samples", []):
            if s and not r["violations"]:
                inp = os.path.join(work, "s.in")
                write_input(inp, s)
                try:
                    rr = run([nat[id(u)].result(), n, inp], timeout=60)
                    if rr.returncode == 0:
                        validated += 1
                        if len(vsamples) < 12:
                            vsamples.append({"harness": n, "input": s, "native": "agrees"})
                    else:
                        unconfirmed.append({"harness": n, "msg": "native run of a solver model disagrees: " + rr.stdout[-300:], "input": s})
                        log("NATIVE DISAGREES", n, rr.stdout[-300:])
                        if "REPLAY-FAIL" in rr.stdout:
                            p = os.path.join(rep, "%s.%s.s.in" % (a.prop, n))
                            write_input(p, s)
                            bad.append((n, {"msg": rr.stdout.strip()[-200:], "input": s}, p))
                except (subprocess.TimeoutExpired, BuildError):
                    pass
    tot = lambda k: sum(r.get(k, 0) or 0 for _, _, r in results)
    harn = []
    vac = []
    for u, n, r in results:
        reached = r.get("reached", {})
        if not any(reached.values()):
            vac.append(n)
        harn.append({k: r.get(k) for k in ("harness", "paths", "forced_paths", "branches", "asserts", "sym_asserts", "concrete_asserts", "sat", "unsat", "unknown", "int_unsat", "int_queries", "undecided_asserts", "undecided", "undecided_branches", "concretizations", "stale", "divergences", "solver_s", "complete", "reached", "engine_error", "external_calls_with_symbolic_args", "notes", "violations", "elapsed") if r.get(k) not in (None, [], {})})
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": P.get("level", "model_checking"), "wall_s": round(time.time() - t0, 2),
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches") + tot("asserts"), "traces_validated_against_impl": validated,
            "samples": vsamples or [{"harness": n, "input": r.get("sample_input", {})} for _, n, r in results[:3]],
            "what": "states = symbolic paths fully executed; transitions = symbolic branch decisions and assertions decided on them; traces_validated = models of explored paths replayed through the g++ build of the same code",
            "functions_encoded": P.get("functions", ""), "bounds": P.get("bounds", ""), "outside": P.get("outside", ""), "stubs_and_assumptions": P.get("assumes", ""),
            "queries": {"sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"), "integer_encoding_queries": tot("int_queries"), "solver_s": round(tot("solver_s"), 2)},
            "assertions": {"checked": tot("asserts"), "decided_by_solver": tot("sym_asserts") - tot("undecided_asserts"), "constant_on_path": tot("concrete_asserts"), "undecided": tot("undecided_asserts")},
            "incomplete_harnesses": [n for _, n, r in results if not r.get("complete")],
            "vacuous_harnesses": vac, "unconfirmed": unconfirmed, "harnesses": harn,
        },
        "violations": [{"harness": n, "msg": v["msg"], "input": v["input"], "replay": p} for n, v, p in bad],
    }
    if not a.only:
        json.dump(ev, open(os.path.join(evdir, a.prop + ".json"), "w"), indent=1)
    log("done %.1fs: states %d asserts %d undecided %d validated %d vacuous %s" % (time.time() - t0, tot("paths"), tot("asserts"), tot("undecided_asserts"), validated, vac))
    for n, v, p in bad:
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        print("  harness %s: %s" % (n, v["msg"]))
    if bad:
        return 1
    if results and all(r.get("engine_error") for _, _, r in results):
        return 2
    return 0


if __name__ == "__main__":
    main()
