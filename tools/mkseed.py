#!/usr/bin/env python3
"""mkseed.py ID: builds /verif/seeded/ID from /tmp/s/src/ID.py, which defines prop, needs, breaks, edits=[(file,old,new)], demo (C++ text), flags"""
import sys, os, json, subprocess, shutil
ID = sys.argv[1]
ns = {}
exec(open("/tmp/s/src/%s.py" % ID).read(), ns)
D = "/verif/seeded/" + ID
os.makedirs(D, exist_ok=True)
W = "/tmp/s/wt"
if not os.path.isdir(W):
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "--detach", "-f", W, "HEAD"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--detach", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
for f, a, b in ns["edits"]:
    p = os.path.join(W, f)
    s = open(p).read()
    n = s.count(a)
    k = ns.get("nth", {}).get(a)
    if k is None:
        assert n == 1, (f, a, n)
        s = s.replace(a, b)
    else:
        parts = s.split(a)
        s = a.join(parts[:k]) + b + a.join(parts[k:])
    open(p, "w").write(s)
d = subprocess.check_output(["git", "-C", W, "diff"], text=True)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
open(D + "/patch.diff", "w").write(d)
open(D + "/demo.cpp", "w").write(ns["demo"].lstrip())
open(D + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves as the property says; non-zero: broken.  Run with cwd = the repository.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -w -O1 %s -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" -pthread || exit 3
timeout 120 "$T/demo"
''' % ns.get("flags", ""))
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(D + "/meta.json", "w"), indent=1)
print("wrote", D)
