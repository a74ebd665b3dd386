#!/usr/bin/env python3
"""mkseed.py ID PROP FILE 'needs' 'breaks' < python literal ([(old,new),...], demo_source)
Writes seeded/ID from exact-once replacements in /repo's FILE (or FILE per pair)."""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, f, needs, breaks = sys.argv[1:6]
pairs, demo = eval(sys.stdin.read())
d = V + "/seeded/" + i; os.makedirs(d, exist_ok=True)
W = "/tmp/seedmk"
subprocess.check_call("rm -rf %s && git clone -q /repo %s" % (W, W), shell=True)
for p in pairs:
    old, new = p[0], p[1]; ff = p[2] if len(p) > 2 and p[2] else f
    s = open(W + "/" + ff).read(); n = s.count(old)
    if len(p) > 3:  # n-th occurrence
        k = -1
        for _ in range(p[3]): k = s.index(old, k + 1)
        s = s[:k] + new + s[k + len(old):]
    else:
        assert n == 1, (n, old); s = s.replace(old, new)
    open(W + "/" + ff, "w").write(s)
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
open(d + "/demo.cpp", "w").write(demo.lstrip())
open(d + "/demo.sh", "w").write('''#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/ildemo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
SRC=$(sed -n 's#^// SRC: ##p' "$here/demo.cpp")
LIB=$(sed -n 's#^// LIB: ##p' "$here/demo.cpp")
FLAGS=$(sed -n 's#^// FLAGS: ##p' "$here/demo.cpp")
g++ -std=c++11 -g -O0 -DIL_MKL -DIL_BLAS -include cstdint -I. -I/usr/include/mkl -w $FLAGS "$here/demo.cpp" $SRC -o "$tmp/demo" $LIB || exit 3
cd "$tmp" && timeout 60 ./demo
''')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
subprocess.check_call(["rm", "-rf", W])
