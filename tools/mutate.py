#!/usr/bin/env python3
# Development tool: random mutants of the code, to find what the checks miss.
# usage: mutate.py LOG NUMBER SEED [FILE-REGEX]
import sys, os, re, random, subprocess, json, shutil, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
log, number, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
expect = "EXPECT" in os.environ  # only the checks of the arguments
rx = sys.argv[4] if len(sys.argv) > 4 else "."
W = int(os.environ.get("WORKERS", "3"))
rnd = random.Random(seed)
cost = {}
for p in P:
    try: cost[p["id"]] = json.load(open("/verif/evidence/%s.json" % p["id"]))["wall_s"]
    except Exception: cost[p["id"]] = 30
files = {}
for p in P:
    if p["na"]: continue
    for f in p["files"]: files.setdefault(f, []).append(p["id"])
skip = re.compile(r"^\s*(//|#|\*|/\*|template|explicit|friend|IL_EXPECT|typedef|using|public:|private:|static_assert|IL_UNUSED|IL_SET_SOURCE|IL_ENSURE)")
def mutants(path):
    out = []
    lines = open("/repo/" + path).read().split("\n")
    comment = False
    for n, l in enumerate(lines):
        if "/*" in l: comment = True
        if comment:
            if "*/" in l: comment = False
            continue
        if expect:
            if not (re.match(r"^\s*IL_EXPECT", l) or (n and re.match(r"^\s*IL_EXPECT", lines[n - 1]) and not lines[n - 1].rstrip().endswith(";"))): continue
        if (skip.match(l) and not expect) or not l.startswith("  ") or not l.strip(): continue
        code = l.split("//")[0]
        def sub(a, b):
            for m in re.finditer(a, code):
                out.append((n, code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():]))
        for a, b in [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
                     (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
                     (r"\bi0\b", "i1"), (r"\bi1\b", "i0"), (r"\bn0\b", "n1"), (r"\bn1\b", "n0"), (r"\bsize\(", "capacity("), (r"\bcapacity\(", "size("), (r" \+= ", " = "), (r" -= ", " += "), (r"\bi\b", "j"), (r"\bj\b", "i"),
                     (r"\bif \((.*)\) \{", r"if (true || (\1)) {"), (r"\bif \((.*)\) \{", r"if (false && (\1)) {"), (r"std::move\((\w+)\)", r"\1"), (r"\+\+(\w+)", r"--\1")]:
            sub(a, b)
        if re.match(r"^\s*IL_EXPECT.*;$", code): out.append((n, ""))
        if re.match(r"^\s+[\w\[\]().>*-]+(\(.*\)| [+-]?= .*);$", code) and not re.match(r"^\s+(return|const|il::|double|bool|break)", code):
            out.append((n, ""))
    return lines, out
pool = []
for f in sorted(files):
    if not re.search(rx, f): continue
    lines, ms = mutants(f)
    rnd.shuffle(ms)
    pool.append((f, ms))
todo = []
while len(todo) < number and any(m for f, m in pool):
    for f, m in pool:
        if m and len(todo) < number: todo.append((f, m.pop()))
lock = threading.Lock()
def worker(w):
    d = "/tmp/mut%d" % w
    subprocess.call(["rm", "-rf", d]); os.makedirs(d); subprocess.check_call(["cp", "-a", "/repo/il", d + "/il"])
    while True:
        with lock:
            if not todo: break
            f, (n, new) = todo.pop(0)
        old = open("/repo/" + f).read()
        lines = old.split("\n"); before = lines[n]; lines[n] = new
        open(d + "/" + f, "w").write("\n".join(lines))
        res, by, notes = "SURVIVED", "", ""
        for c in sorted(files[f], key=lambda c: cost[c]):
            try:
                r = subprocess.run([ROOT + "/check.py", c], env=dict(os.environ, VP_REPO=d, VP_BUILD="/tmp/ilb"), capture_output=True, text=True, timeout=400)
            except subprocess.TimeoutExpired:
                res, by = "TIMEOUT", c; continue
            if r.returncode == 1 and "VIOLATION" in r.stdout: res, by = "killed", c; break
            if r.returncode not in (0, 1):
                t = r.stdout + r.stderr
                if " error: " in t: res, by = "compile", c; break
                res = "ERROR"; by = c; notes = t[-300:]
        open(d + "/" + f, "w").write(old)
        with lock:
            open(log, "a").write("%s %s %s:%d | %s | -> | %s | %s\n" % (res, by, f, n + 1, before.strip(), new.strip(), notes.replace("\n", " ")))
    subprocess.call(["rm", "-rf", d])
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
