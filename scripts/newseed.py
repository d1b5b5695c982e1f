#!/usr/bin/env python3
"""Creates or refreshes a planted bug.

usage: newseed.py ID PKG PROPERTY "needs" "what it breaks" < edits
The edits on stdin are FILE / <<<< old ==== new >>>> blocks as in mutants.txt.
The demonstration is /verif/seeded/ID/demo_test.go, run in package PKG.
"""
import os, subprocess, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate, tempfile
sid, pkg, prop, needs, what = sys.argv[1:6]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
text = "@ x -\n" + sys.stdin.read()
with tempfile.NamedTemporaryFile("w", suffix=".txt", delete=False) as f:
    f.write(text)
m = mutate.parse(f.name)[0]
os.unlink(f.name)
for fn, old, new in m["edits"]:
    p = os.path.join("/repo", fn)
    s = open(p).read()
    assert s.count(old) == 1, (fn, s.count(old))
    open(p, "w").write(s.replace(old, new))
subprocess.run(["gofmt", "-l", "."], cwd="/repo/message")
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# Runs demo_test.go as a test of package %s of the repository.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
o=$(mktemp)
trap 'rm -f "$o"' EXIT
cat > "$o" <<JSON
{"Replace": {"$PWD/%s/zz_demo_test.go": "$here/demo_test.go"}}
JSON
go test -overlay "$o" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
''' % (pkg, pkg, pkg))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
