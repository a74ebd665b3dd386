#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy: seedtest.py [--nocheck] [ID...]
For each seeded/<ID>: the patch applies, builds, passes the stable tests, the demo passes
without and fails with it; then says whether the property's check reports it."""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwt"; S = "/tmp/seedwt_vp"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
args = [a for a in sys.argv[1:] if a != "--nocheck"]; check = "--nocheck" not in sys.argv
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
if not os.path.exists(W):
    sh("git clone -q /repo %s" % W)
sh("rm -rf %s; mkdir -p %s; cp /opt/vp/* %s; sed -i 's#/repo#%s#g; s#/opt/vp#%s#g' %s/*" % (S, S, S, W, S, S))
sh("cd %s && git fetch -q && git checkout -q -f %s && git clean -fdq" % (W, head))
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
bad = 0
def demo(d):
    t = "/tmp/seeddemo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    for f in ("patch.diff", "meta.json"): os.path.exists(t + "/" + f) and os.unlink(t + "/" + f)
    try: r = sh("bash %s/demo.sh" % t, cwd=W, timeout=300)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout[-300:]
for i in args or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + i
    sh("git -C %s checkout -q -f ." % W)
    msg = []
    rc, out = demo(d)
    if rc: msg.append("demo fails on the unchanged tree: %s" % out)
    r = sh("git -C %s apply %s/patch.diff" % (W, d))
    if r.returncode: print(i, "PATCH DOES NOT APPLY", r.stdout); bad += 1; continue
    r = sh("bash %s/build.sh" % S, timeout=600)
    if r.returncode: print(i, "DOES NOT BUILD", r.stdout[-500:]); bad += 1; continue
    sh("bash %s/test.sh /tmp/seedwt_out.json" % S, timeout=600)
    o = json.load(open("/tmp/seedwt_out.json"))
    failed = sorted(base - set(o["passed"])) if base else o
    if failed: msg.append("breaks tests: %s" % failed[:4])
    rc, out = demo(d)
    if rc == 0: msg.append("demo passes with the patch")
    m = json.load(open(d + "/meta.json"))
    st = ""
    if check:
        r = sh("VP_REPO=%s ./check.py %s" % (W, m["property"]), cwd=V, timeout=1200)
        st = "caught" if r.returncode == 1 and ("VIOLATION property=" + m["property"]) in r.stdout else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:])
    if check:
        R = V + "/tools/seed_results.json"
        res = json.load(open(R)) if os.path.exists(R) else {}
        res[i] = "yes" if st == "caught" else "no"
        json.dump(res, open(R, "w"), indent=1, sort_keys=True)
    print("%-8s %-4s %s %s" % (i, m["property"], "valid" if not msg else "INVALID " + "; ".join(msg), st), flush=True)
    bad += bool(msg)
sh("git -C %s checkout -q -f ." % W)
sys.exit(bad != 0)
