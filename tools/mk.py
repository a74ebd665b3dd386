#!/usr/bin/env python3
# Writes properties.jsonl, MANIFEST.json and known_findings.json's fixed entries
import json, os, sys, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
TECH = "symbolic execution of the code's LLVM IR with SMT (z3)"
NOTE = ("Bounded: for every path of the real code within the bounds stated in the evidence (and at the head of harness/%s*.cpp), the solver shows the assertions, memory safety, "
        "initialisation, lifetime and leak checks hold for all values, in debug and, where listed, release builds; nothing is claimed outside the bounds. Trusted: clang -O0 front end, the engine in "
        "engine/, z3, and the models of libc in rt/model.cpp. Violations are replayed natively before being reported.")
props, checks, na = [], [], []
for p in P:
    props.append(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                      why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]])))
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    else:
        checks.append(dict(property=p["id"], quick_cmd="./check.py %s" % p["id"], thorough_cmd="./check.py %s --tier thorough" % p["id"],
                           technique=p["technique"] or TECH, level=p["level"], level_note=(NOTE % p["id"]) + ((" " + p["note"]) if p["note"] else "")))
    assert len(p["title"]) <= 80, p["id"]
ids = [p["id"] for p in P]; assert len(set(ids)) == len(ids)
for f in P:
    for x in f["files"]: assert os.path.exists("/repo/" + x), x
open(root + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump(dict(version=1, setup_cmd="make -s -C engine BUILD=../build", checks=checks, not_applicable=na,
               notes="One driver for all checks: check.py. No hooks are needed in /repo."), open(root + "/MANIFEST.json", "w"), indent=1)
# fixed entries
kf = json.load(open(root + "/known_findings.json"))
fx = dict(l.split() for l in open(here + "/fixed.txt") if l.strip())
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "92caa36..HEAD"], text=True).splitlines()
out = []
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    key = [k for k in fx if h.startswith(k)]
    if not key: print("no property for", l); continue
    out.append(dict(status="fixed", property=fx[key[0]], commit=h, what=s[5:], line="fixed: property=%s %s %s" % (fx[key[0]], h, s[5:])))
kf["findings"] = [f for f in kf["findings"] if f["status"] != "fixed"] + out
json.dump(kf, open(root + "/known_findings.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable", len(out), "fixed")
