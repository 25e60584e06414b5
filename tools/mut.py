#!/usr/bin/env python3
"""mut.py <property> <file> <old> <new> [...]: runs a quick check against a scratch copy of /repo with one edit each."""
import os, shutil, subprocess, sys, tempfile
pid, args = sys.argv[1], sys.argv[2:]
for i in range(0, len(args), 3):
    f, old, new = args[i:i + 3]
    d = tempfile.mkdtemp(prefix="mut_")
    r = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) < 1:
            print("NOT FOUND", old); continue
        open(p, "w").write(s.replace(old, new, 1))
        x = subprocess.run(["python3", "/verif/check.py", pid, "quick"], env=dict(os.environ, VERIF_REPO=r), text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("rc=%d  %s -> %s\n    %s" % (x.returncode, old.strip()[:60], new.strip()[:60], x.stdout.strip()[:300].replace("\n", "\n    ")), flush=True)
    finally:
        shutil.rmtree(d)
