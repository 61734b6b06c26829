#!/usr/bin/env python3
"""tools/mkcbug.py FILE...: makes /verif/seeded/<id>/ from bug descriptions in tools/bugs/*.py (dictionaries ID, P, NEEDS, WHAT, EDITS, DEMO)."""
import json
import os
import subprocess
import sys

Q = "/repo/src/multi_physics/QED/src/"
DEMO_SH = """#!/bin/bash
# Runs in the top folder of the repository: exit code 0 if the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++%s -O1 -w %s -I "$PWD/src/multi_physics/QED/src" "$D/demo.cpp" -o "$W/demo" || exit 3
cd "$W" && timeout 200 ./demo
"""
for f in sys.argv[1:]:
    b = {}
    exec(open(f).read(), b)
    s = "/verif/seeded/" + b["ID"]
    os.makedirs(s, exist_ok=True)
    assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0, "/repo is dirty"
    try:
        for path, old, new in b["EDITS"]:
            t = open(Q + path).read()
            assert t.count(old) == 1, (f, path, t.count(old), old)
            open(Q + path, "w").write(t.replace(old, new))
        d = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, check=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(s + "/patch.diff", "wb").write(d)
    open(s + "/demo.cpp", "w").write(b["DEMO"])
    open(s + "/demo.sh", "w").write(DEMO_SH % (b.get("STD", "17"), b.get("FLAGS", "")))
    json.dump(dict(property=b["P"], needs=b["NEEDS"], what_it_breaks=b["WHAT"]), open(s + "/meta.json", "w"), indent=1)
    print(b["ID"], len(d))
