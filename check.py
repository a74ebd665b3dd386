#!/usr/bin/env python3
"""Decides one property:  check.py <property> [--tier quick|thorough] [--entry E] [--keep]

Compiles the property's harnesses (harness/<id>*.cpp) together with the current
sources of /repo to LLVM bitcode, executes every entry symbolically with
build/ilsym (engine/), replays each counterexample against a native sanitizer
build of the same sources, and writes evidence/<id>.json.
exit 0: held within the bounds; 1: VIOLATION line(s); 2: no answer.
"""
import sys, os, re, json, time, subprocess, tempfile, shutil, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))
ILSYM = os.path.join(BUILD, "ilsym")
CXX = "clang++-18"
OPT = "/usr/lib/llvm-18/bin/opt"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
UB = ("signed-integer-overflow,shift,integer-divide-by-zero,bool,return,unreachable,"
      "null,bounds,float-cast-overflow,pointer-overflow")
NJOBS = int(os.environ.get("VP_JOBS", "8"))
COMMON = ["-std=c++11", "-m64", "-DIL_MKL", "-DIL_BLAS", "-include", "cstdint", "-w",
          "-I/usr/include/mkl", "-I" + REPO, "-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness"),
          "-fno-exceptions", "-ffp-contract=off"]


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace", **kw)


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(["make", "-s", "-C", os.path.join(VERIF, "engine"), "BUILD=" + BUILD], timeout=1700)
        if r.returncode != 0:
            print("engine does not build:\n" + r.stderr[-3000:])
            sys.exit(2)


class NoAnswer(Exception):
    pass


def directives(path):
    """// vp: key=value ... lines of a harness"""
    d = {"variants": ["debug"], "src": [], "maxsteps": {}, "maxtime": {}, "flags": []}
    for line in open(path):
        m = re.match(r"\s*// vp: (.*)", line)
        if not m:
            continue
        t = m.group(1).split()
        if t[0] == "variants":
            d["variants"] = t[1:]
        elif t[0] == "src":
            d["src"] += t[1:]
        elif t[0] == "flags":
            d["flags"] += t[1:]
        elif t[0] == "maxsteps":
            d["maxsteps"][t[1]] = t[2]
        elif t[0] == "known":
            d.setdefault("known", {})[t[1]] = t[2]
    txt = open(path).read()
    txt = re.sub(r"//.*", "", txt)
    d["entries"] = list(dict.fromkeys(re.findall(r"VP_ENTRY\((\w+)\)", txt)))
    return d


def vflags(variant, tier):
    f = []
    if "ndebug" in variant:
        f.append("-DNDEBUG")
    if tier == "thorough":
        f.append("-DVP_DEEP")
    return f


def bitcode(path, d, variant, tier, tmp):
    """harness + repo sources + environment model -> one optimised module"""
    stem = os.path.splitext(os.path.basename(path))[0] + "." + variant
    srcs = [path] + [os.path.join(REPO, s) for s in d["src"]] + [os.path.join(VERIF, "rt", "model.cpp")]
    if "linalg" in d["flags"]:
        srcs.append(os.path.join(VERIF, "rt", "linalg.cpp"))
    bcs = []
    procs = []
    for i, s in enumerate(srcs):
        if not os.path.exists(s):
            raise NoAnswer("source %s is missing" % s)
        out = os.path.join(tmp, "%s.%d.bc" % (stem, i))
        cmd = [CXX] + COMMON + vflags(variant, tier) + ["-g", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-rtti", "-fno-builtin-memcmp",
               "-mno-sse4.1", "-fcx-limited-range" if "cxlr" in d["flags"] else "-w"]
        if "stdstring" in d["flags"]:
            cmd.append("-D_GLIBCXX_ASSERTIONS")
        if not s.startswith(os.path.join(VERIF, "rt")):
            cmd += ["-fsanitize=" + UB, "-fsanitize-trap=all"]
        cmd += ["-emit-llvm", "-c", s, "-o", out]
        procs.append((s, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True, errors="replace")))
        bcs.append(out)
    for s, p in procs:
        err = p.communicate()[1]
        if p.returncode != 0:
            raise NoAnswer("%s does not compile:\n%s" % (s, err[-3000:]))
    lk = os.path.join(tmp, stem + ".l.bc")
    r = sh([LINK] + bcs[:-1] + bcs[-1:] + ["-o", lk])
    if r.returncode != 0:
        raise NoAnswer("llvm-link: " + r.stderr[-2000:])
    out = os.path.join(tmp, stem + ".bc")
    entries = ",".join(d["entries"] + ["vp_model_i64toa", "vp_model_i64toan", "vp_model_fput_i64", "vp_model_fput_packed"])
    r = sh([OPT, "--passes=internalize,globaldce,function(sroa,early-cse,simplifycfg)", "--internalize-public-api-list=" + entries, lk, "-o", out])
    if r.returncode != 0:
        raise NoAnswer("opt: " + r.stderr[-2000:])
    return out


def run_entry(job):
    (bc, entry, variant, d, tier, tmp, deadline) = job
    out = os.path.join(tmp, "%s.%s.json" % (entry, variant))
    left = max(5, deadline - time.time())
    cmd = [ILSYM, bc, "--entry", entry, "--out", out, "--repo", REPO, "--max-time", "%d" % left,
           "--max-steps", d["maxsteps"].get(entry, "3000000"), "--max-viol", "3"]
    t0 = time.time()
    try:
        r = sh(cmd, timeout=left + 60)
    except subprocess.TimeoutExpired:
        return {"status": "incomplete", "detail": "engine timeout", "entry": entry, "variant": variant}
    if not os.path.exists(out):
        return {"status": "error", "detail": "engine died: " + r.stderr[-500:], "entry": entry, "variant": variant}
    res = json.load(open(out))
    res["variant"] = variant
    res["seconds"] = time.time() - t0
    return res


def native_build(path, d, variant, tier, tmp, asan, cache):
    key = (path, variant, asan)
    if key in cache:
        return cache[key]
    exe = os.path.join(tmp, os.path.basename(path) + "." + variant + (".asan" if asan else ".vg"))
    srcs = [path] + [os.path.join(REPO, s) for s in d["src"]] + [os.path.join(VERIF, "rt", "native.cpp")]
    if "linalg" in d["flags"]:
        srcs.append(os.path.join(VERIF, "rt", "linalg.cpp"))
    wraps = ",".join("--wrap=" + w for w in ["malloc", "calloc", "realloc", "free", "fopen", "fclose"])
    cmd = [CXX] + COMMON + vflags(variant, tier) + ["-g", "-O0", "-fno-omit-frame-pointer"]
    if asan:
        cmd += ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment", "-fno-sanitize-recover=all"]
    cmd += srcs + ["-Wl," + wraps, "-rdynamic", "-ldl", "-o", exe]
    r = sh(cmd)
    cache[key] = (exe, r.stderr[-2000:] if r.returncode else "")
    return cache[key]


def native_run(exe, entry, vals, tmp, asan):
    vf = os.path.join(tmp, "vals.txt")
    open(vf, "w").write("\n".join(vals) + "\n")
    cwd = tempfile.mkdtemp(dir=tmp)
    env = dict(os.environ, ASAN_OPTIONS="exitcode=45:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
               UBSAN_OPTIONS="exitcode=45:print_stacktrace=1:halt_on_error=1")
    cmd = [exe, entry, vf]
    if not asan:
        cmd = ["valgrind", "-q", "--error-exitcode=45", "--exit-on-first-error=yes", "--leak-check=no"] + cmd
    try:
        r = sh(cmd, timeout=60, cwd=cwd, env=env)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        rc, out = 46, "timeout"
    shutil.rmtree(cwd, ignore_errors=True)
    return rc, out


def replay(path, d, variant, tier, tmp, entry, v, bc, cache):
    """-> (confirmed, how, output)"""
    vals = [str(int(i["value"]) & ((1 << 64) - 1)) for i in v["inputs"]]
    notes = ""
    for asan in (True, False):
        exe, err = native_build(path, d, variant, tier, tmp, asan, cache)
        if err:
            notes += "native build failed: " + err
            continue
        rc, out = native_run(exe, entry, vals, tmp, asan)
        if rc != 0:
            return True, "native " + ("ASan/UBSan" if asan else "valgrind") + " build, exit %d" % rc, out[-4000:]
    # undefined behaviour that no dynamic tool shows: the real code is executed by the
    # engine on the concrete values alone
    if v["kind"] in ("uninit", "uninitialised", "overlap", "oob", "undefined-behaviour", "null", "use-after-free", "leak"):
        out = os.path.join(tmp, "conc.json")
        r = sh([ILSYM, bc, "--entry", entry, "--out", out, "--repo", REPO, "--concrete", ",".join(vals) or "0"])
        if r.returncode == 1:
            return True, "interpretation of the real code on the concrete values (not visible to sanitizers)", notes
    return False, "", notes


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    keep = "--keep" in a
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--entry" in a:
        only = a[a.index("--entry") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build_engine()
    tb = time.time()
    budget = 560 if tier == "quick" else 3000
    if "--budget" in a:
        budget = int(a[a.index("--budget") + 1])
    deadline = tb + budget
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    rc = 2
    try:
        rc = decide(prop, tier, only, seed, t0, deadline, tmp)
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (prop, e))
    finally:
        if keep:
            print("kept " + tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, tier, only, seed, t0, deadline, tmp):
    files = sorted(glob.glob(os.path.join(os.environ.get("VP_HARNESS", os.path.join(VERIF, "harness")), prop + "*.cpp")))
    files = [f for f in files if re.match(prop + r"([_a-z].*)?\.cpp$", os.path.basename(f))]
    if not files:
        raise NoAnswer("no harness")
    D = {f: directives(f) for f in files}
    pool = ThreadPoolExecutor(NJOBS)
    errors = []
    # 1. bitcode of the current sources
    comp = [(f, v) for f in files for v in D[f]["variants"]]
    futs = [(f, v, pool.submit(bitcode, f, D[f], v, tier, tmp)) for f, v in comp]
    jobs = []
    bcs = {}
    for f, v, fu in futs:
        try:
            bcs[(f, v)] = fu.result()
        except NoAnswer as e:
            errors.append(str(e))
            continue
        for e in D[f]["entries"]:
            if only and e != only:
                continue
            if e.endswith("_deep") and tier != "thorough":
                continue
            jobs.append((f, (bcs[(f, v)], e, v, D[f], tier, tmp, deadline)))
    # 2. symbolic execution
    res = [(f, fu.result()) for f, fu in [(f, pool.submit(run_entry, j)) for f, j in jobs]]
    if os.environ.get("VP_VERBOSE"):
        for f, r in sorted(res, key=lambda x: -x[1].get("wall_seconds", 0)):
            print("  %-28s %-7s %-10s %6.1fs paths=%d done=%d abort=%d cut=%d q=%d z3=%d %s %s" % (
                r["entry"], r["variant"], r["status"], r.get("wall_seconds", 0), r.get("paths", 0), r.get("completed", 0),
                r.get("expected_aborts", 0), r.get("assume_cut", 0), r.get("queries", 0), r.get("z3_calls", 0), r.get("detail", ""), r.get("covers_missed", "")))
    known = json.load(open(os.path.join(VERIF, "known_findings.json")))
    known_entries = {k["entry"]: k for k in known["findings"] if k.get("status") == "known"}
    viol = []
    cache = {}
    unconfirmed = []
    shown = set()
    replays = 0
    for f, r in res:
        e = r["entry"]
        if e in known_entries and all(known_entries[e]["kind"] in (v["kind"] + ": " + v["msg"]) for v in r.get("violations", [])):
            # an entry that isolates a recorded, unrepaired defect
            if r["status"] == "violation" and e not in shown:
                shown.add(e)
                print("KNOWN-FINDING: property=%s %s" % (prop, known_entries[e]["what"]))
            continue
        if r["status"] in ("error", "incomplete"):
            errors.append("%s (%s): %s %s" % (e, r["variant"], r["status"], r.get("detail", "")))
        elif r["status"] == "ok":
            if r["covers_missed"]:
                errors.append("%s (%s): unreachable: %s" % (e, r["variant"], ", ".join(r["covers_missed"])))
            if r["completed"] + r["expected_aborts"] == 0:
                errors.append("%s (%s): vacuous, no path completes" % (e, r["variant"]))
        for v in r.get("violations", []):
            ok, how, out = replay(f, D[f], r["variant"], tier, tmp, e, v, bcs[(f, r["variant"])], cache)
            replays += 1
            rec = {"property": prop, "harness": os.path.basename(f), "entry": e, "variant": r["variant"], "kind": v["kind"], "message": v["msg"],
                   "at": v["loc"], "function": v["fn"], "stack": v["stack"], "inputs": v["inputs"], "confirmed_by": how, "native_output": out}
            if ok:
                viol.append(rec)
                break
            unconfirmed.append(rec)
    # 3. report
    rdir = os.path.join(VERIF, "evidence", "replay")
    for i, v in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s_%s_%d.json" % (prop, v["entry"], i))
        json.dump(v, open(p, "w"), indent=1)
        print("  %s: %s at %s in %s  [%s]" % (v["kind"], v["message"], v["at"], v["function"], " ".join("%s=%s" % (x["name"], x["value"]) for x in v["inputs"])))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for v in unconfirmed:
        errors.append("unconfirmed counterexample in %s (%s): %s %s at %s %s [%s] %s" % (v["entry"], v["variant"], v["kind"], v["message"], v["at"], v["function"],
                      " ".join("%s=%s" % (x["name"], x["value"]) for x in v["inputs"]), v["native_output"][-300:]))
    if not only:
        evidence(prop, tier, seed, t0, res, viol, replays, known_entries, errors)
    for e in errors:
        print("ERROR: " + e)
    if viol:
        return 1
    if errors:
        return 2
    q = sum(r.get("queries", 0) for _, r in res)
    print("OK property=%s entries=%d paths=%d queries=%d %.1fs" % (prop, len(res), sum(r.get("paths", 0) for _, r in res), q, time.time() - t0))
    return 0


def evidence(prop, tier, seed, t0, res, viol, replays, known_entries, errors):
    S = lambda k: sum(r.get(k, 0) for _, r in res)
    fns, lines = set(), set()
    for _, r in res:
        fns |= set(r.get("functions", []))
        lines |= set(r.get("lines", []))
    bounds = {}
    for f in sorted({f for f, _ in res}):
        txt = open(f).read()
        bounds[os.path.basename(f)] = [m.strip() for m in re.findall(r"// bound: (.*)", txt)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the LLVM IR of the current /repo sources; every feasible path within the bounds is "
                           "explored and every assertion, memory access, arithmetic trap and leak is decided by the solver for all values of the symbolic inputs on that path.",
            "entries": [{"entry": r["entry"], "variant": r["variant"], "status": r["status"], "paths": r.get("paths", 0), "completed_paths": r.get("completed", 0),
                         "expected_abort_paths": r.get("expected_aborts", 0), "instructions": r.get("instructions", 0), "assertions": r.get("assertions", 0),
                         "symbolic_assertions": r.get("symbolic_assertions", 0), "symbolic_variables": r.get("variables", 0), "queries": r.get("queries", 0),
                         "z3_calls": r.get("z3_calls", 0), "solver_seconds": r.get("solver_seconds", 0), "wall_seconds": r.get("wall_seconds", 0),
                         "reachability_witnesses": r.get("covers", [])} for _, r in res],
            "bounds": bounds,
            "functions_encoded": sorted(fns), "repo_lines_executed": len(lines),
            "paths": S("paths"), "assertions_decided": S("assertions"), "queries_discharged": S("queries"), "sat": S("sat"), "unsat": S("unsat"),
            "unknown": S("unknown"), "solver_seconds": S("solver_seconds"), "counterexamples_replayed": replays,
            "known_findings": [k["what"] for e, k in known_entries.items() if any(r["entry"] == e for _, r in res)],
        },
        "assumptions": ["x86-64, clang -O0 semantics of the sources; malloc succeeds below 64 MB and returns 16-byte aligned blocks",
                        "models in rt/model.cpp (C library, files) and rt/linalg.cpp (BLAS/LAPACK) follow their documented contracts",
                        "outside the stated bounds nothing is claimed"],
        "wall_s": time.time() - t0, "violations": len(viol),
    }
    if errors:
        ev["coverage"]["errors"] = errors
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


main()
