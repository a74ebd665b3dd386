#!/usr/bin/env python3
"""Self-test of the engine: tools/enginetest/*.cpp hold (good_*) or must be reported (bad_*)."""
import os, re, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = V + "/tools/enginetest"
bad = 0
for f in sorted(glob.glob(H + "/*.cpp")):
    p = os.path.basename(f)[:-4]
    es = re.findall(r"VP_ENTRY\((\w+)\)", open(f).read())
    for e in es:
        if sys.argv[1:] and e not in sys.argv[1:]: continue
        r = subprocess.run([V + "/check.py", p, "--entry", e], env=dict(os.environ, VP_HARNESS=H), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        want = 0 if e.startswith("good") else 1
        ok = r.returncode == want and (not want or "VIOLATION property=" + p in r.stdout)
        kind = [l for l in r.stdout.splitlines() if l.startswith("  ") and " at " in l]
        print("%-28s %s %s" % (e, "as expected" if ok else "UNEXPECTED rc=%d %s" % (r.returncode, r.stdout[-200:]), kind[0].strip()[:100] if kind else ""), flush=True)
        bad += not ok
sys.exit(bad != 0)
