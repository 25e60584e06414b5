#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE : reads JSON {edits:[[file,old,new]..],needs,breaks,pkg,test} from stdin, writes seeded/ID."""
import json, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the demonstration beside this script inside package %(pkg)s of the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
O=$(mktemp)
echo "{\\"Replace\\": {\\"$R/%(pkg)s/zz_demo_test.go\\": \\"$D/demo_test.go\\"}}" > "$O"
go test -vet=off -count=1 -overlay "$O" -run '^TestDemo$' ./%(pkg)s
rc=$?
rm -f "$O"
exit $rc
'''
def mk(i, prop, edits, needs, breaks, pkg, test):
    d = tempfile.mkdtemp(prefix="mkbug_"); w = os.path.join(d, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f); s = open(p, newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        o = os.path.join(V, "seeded", i); os.makedirs(o, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", w, "diff"])
        open(os.path.join(o, "patch.diff"), "wb").write(diff)
        open(os.path.join(o, "demo.sh"), "w").write(DEMO % {"pkg": pkg})
        open(os.path.join(o, "demo_test.go"), "w").write(test)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        r = subprocess.run(["gofmt", "-l", o], stdout=subprocess.PIPE, text=True)
    finally:
        shutil.rmtree(d)
