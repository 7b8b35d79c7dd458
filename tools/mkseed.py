#!/usr/bin/env python3
"""mkseed.py SPEC...: (developer tool) turn seed specs into seeded/<id>/ directories.
A spec is a python file defining id, prop, needs, breaks, edits=[(file, old, new)], demo (C source) or demo_sh."""
import os, subprocess, sys, json, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd /repo after the build: links against the library that the build left in _build
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
gcc -std=gnu99 -w -D_FILE_OFFSET_BITS=64 -Ic/include -o "$T/demo" "$D/demo.c" _build/src/c/libferret.a -lm -lpthread -lz || exit 3
mkdir "$T/ix"; cd "$T"
timeout 100 ./demo "$T/ix"
rc=$?
echo "demo exit $rc"
exit $rc
'''
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = "%s/seeded/%s" % (V, g["id"]); os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, old, new in g["edits"]:
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (g["id"], f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        a = open("/repo/" + f).read().splitlines(True); b = s.splitlines(True)
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a, b, "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    if "demo" in g: open(d + "/demo.c", "w").write(g["demo"])
    for n, t in g.get("files", {}).items(): open(d + "/" + n, "w").write(t)
    open(d + "/demo.sh", "w").write(g.get("demo_sh", DEMO)); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["prop"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(g["id"], "ok")
