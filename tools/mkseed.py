#!/usr/bin/env python3
"""mkseed.py ID PROPERTY PKGDIR NEEDS BREAKS < edit script
The script on stdin: 'FILE' line, then blocks '<<<<\\nold\\n====\\nnew\\n>>>>', then 'DEMO' and the Go test body."""
import sys, os, subprocess, json, tempfile, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, pkg, needs, breaks = sys.argv[1:6]
text = sys.stdin.read()
edits, demo = text.split("\nDEMO\n", 1)
w = tempfile.mkdtemp(prefix="mkseed-")
os.rmdir(w)
subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
try:
    fn = None
    lines = edits.split("\n"); i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("FILE "): fn = l[5:].strip()
        elif l == "<<<<":
            j = lines.index("====", i); k = lines.index(">>>>", j)
            old, new = "\n".join(lines[i+1:j]), "\n".join(lines[j+1:k])
            p = os.path.join(w, fn); s = open(p).read()
            assert s.count(old) == 1, (fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new)); i = k
        i += 1
    subprocess.check_call(["gofmt", "-l", w + "/" + fn], env={"PATH": "/opt/veriftools/go1.27.3/bin"})
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
finally:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
d = os.path.join(root, "seeded", sid); os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.go.txt", "w").write(demo)
race = "-race " if "//RACE" in demo else ""
open(d + "/demo.sh", "w").write('''#!/bin/bash
# a test compiled into %s through an overlay; nothing is written to the repository
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off TZ=Asia/Tokyo
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%s/zz_demo_test.go" "$d/demo.go.txt" > "$t/overlay.json"
TMPDIR=$t go test %s-vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestDemo$' ./%s
''' % (pkg, pkg, race, pkg))
os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
