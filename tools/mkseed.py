#!/usr/bin/env python3
"""Development tool: write seeded/<name>/ from a spec file.
Spec (python): NAME, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ main body file text)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Compiles the demonstration against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++17 -O1 -fopenmp -I"$PWD/_build/obj" -I"$PWD/lib" "$here/demo.cc" -o "$tmp/demo" \\
  -L"$PWD/_build/obj/lib/.libs" -lhnco -lboost_serialization -Wl,-rpath,"$PWD/_build/obj/lib/.libs" || exit 3
cd "$tmp" && timeout 120 ./demo
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    assert sh("git", "-C", "/repo", "status", "--porcelain", "-uno").stdout == "", "repo not clean"
    for f, old, new in g["EDITS"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (g["NAME"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = sh("git", "-C", "/repo", "diff").stdout
    sh("git", "-C", "/repo", "checkout", "--", ".")
    d = os.path.join(ROOT, "seeded", g["NAME"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write(g.get("DEMO_SH", DEMO_SH))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
