#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec module (ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO, FLAGS)."""
import json, os, subprocess, sys, tempfile, shutil
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
g = {}
exec(open(sys.argv[1]).read(), g)
d = os.path.join(R, "seeded", g["ID"])
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
H = {"H": "include/json_struct/json_struct.h", "D": "include/json_struct/json_struct_diff.h"}
for f, old, new in g["EDITS"]:
    p = os.path.join(t, "r", H.get(f, f))
    s = open(p).read()
    assert s.count(old) == 1, (s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", t + "/r", "diff"], text=True)
shutil.rmtree(t)
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.cpp", "w").write(g["DEMO"])
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd: /repo.  Builds demo.cpp against ./include; exits 0 when the property holds.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w %s -I include "$d/demo.cpp" -o "$t/demo" || exit 3
timeout 60 "$t/demo"
''' % g.get("FLAGS", ""))
os.chmod(d + "/demo.sh", 0o755)
print(d)
