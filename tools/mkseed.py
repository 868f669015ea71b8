#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, what, demo=<C++ text>, libs="common ..." )]. Writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, tempfile, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns)
DEMO = '''#!/bin/bash
# run with cwd = /repo after the build: 0 = behaves, other = broken
set -e
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
# libraries needed: %s
libs="-Wl,--no-as-needed"; for l in geneva-individuals geneva courtier hap common; do libs="$libs -L$repo/_build/src/$l -Wl,-rpath,$repo/_build/src/$l -lgemfony-$l"; done
g++ -std=c++17 -include cstdint -ftemplate-depth=1024 -pthread -fPIC -w -O0 -DDEBUG %s -I"$repo/include" "$here/demo.cpp" -o "$work/demo" $libs -lboost_unit_test_framework -lboost_serialization -lboost_filesystem -lboost_regex -lboost_program_options -lboost_thread -lboost_system
cd "$work" && timeout 120 ./demo
'''
for s in ns["SEEDS"]:
    d = "/verif/seeded/" + s["id"]; os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", t + "/r"])
    for f, old, new in s["edits"]:
        p = t + "/r/" + f; x = open(p).read(); n = x.count(old)
        if n != 1: print(s["id"], f, "old text occurs", n, "times"); sys.exit(1)
        open(p, "w").write(x.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO % (s.get("libs", "common"), s.get("defs", "")))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t); print(s["id"], "ok")
