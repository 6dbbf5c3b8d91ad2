#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <<EOF  (python literal: dict(edits=[(old,new),...], needs=, breaks=, demo=))
writes /verif/seeded/ID/{patch.diff,meta.json,demo.sh,demo.cpp}"""
import json, os, subprocess, sys, difflib
sid, prop = sys.argv[1:3]
d = eval(sys.stdin.read())
out = "/verif/seeded/" + sid
os.makedirs(out, exist_ok=True)
patch = ""
for f in sorted(set(e[0] for e in d["edits"])):
    old = open("/repo/" + f, newline="").read()
    new = old
    for e in d["edits"]:
        if e[0] == f:
            assert new.count(e[1]) >= 1, (f, e[1])
            n = e[3] if len(e) > 3 else 1
            assert n == 0 or new.count(e[1]) == n, (f, new.count(e[1]), e[1])
            new = new.replace(e[1], e[2]) if n else new.replace(e[1], e[2], 1)
    patch += "diff --git a/%s b/%s\n" % (f, f)
    for l in difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f):
        patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
open(out + "/patch.diff", "w").write(patch)
json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
open(out + "/demo.cpp", "w").write(d["demo"])
t = "/tmp/bembel_demo_" + sid
fl = d.get("flags", "-O1")
run = d.get("run", "./demo")
open(out + "/demo.sh", "w").write("""#!/bin/bash
# exit 0 when the demonstration passes
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
mkdir -p %(t)s
g++ -std=c++14 %(fl)s -w -fopenmp -I"$repo" -I/usr/include/eigen3 -DREPO="\\"$repo\\"" "$here/demo.cpp" -o %(t)s/demo || exit 3
cd %(t)s || exit 3
timeout 200 %(run)s
rc=$?
rm -rf %(t)s
exit $rc
""" % dict(t=t, fl=fl, run=run))
os.chmod(out + "/demo.sh", 0o755)
subprocess.check_call(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"])
print("ok", sid)
