#!/usr/bin/env python3
"""revert.py <property> <commit>...: quick check against scratch copies of /repo with one fix commit reverted each."""
import os, shutil, subprocess, sys, tempfile
for c in sys.argv[2:]:
    d = tempfile.mkdtemp(prefix="rev_"); r = d + "/repo"
    try:
        shutil.copytree("/repo", r)
        x = subprocess.run(["git", "-C", r, "-c", "user.email=a@b", "-c", "user.name=a", "revert", "--no-edit", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if x.returncode:
            print(c, "cannot revert", x.stdout[-200:]); continue
        x = subprocess.run(["python3", "/verif/check.py", sys.argv[1], "quick"], env=dict(os.environ, VERIF_REPO=r), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("rc=%d %s %s" % (x.returncode, c, x.stdout.strip()[:250].replace("\n", " | ")), flush=True)
    finally:
        shutil.rmtree(d)
