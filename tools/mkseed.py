#!/usr/bin/env python3
"""Development helper: mkseed.py FILE.  FILE is a python file calling seed(id, prop, [(file, old, new)...], needs, breaks, sources, demo_cpp)"""
import sys, os, subprocess, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(id, prop, edits, needs, breaks, sources, demo):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        o = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(o)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/demo.cpp", "w").write(demo.lstrip())
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds on the demonstrated input\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\ng++ -std=gnu++17 -O0 -w -I. "$d/demo.cpp" %s -o "$t/demo" && timeout 60 "$t/demo"\n' % sources)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
exec(open(sys.argv[1]).read())
