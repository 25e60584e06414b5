#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy of /repo: plant.py confirm ID... | plant.py check ID... (runs the property's quick check on a changed copy)."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = os.path.join(V, "seeded")
sys.path.insert(0, V); sys.dont_write_bytecode = True
from lib.vf import goenv
def sh(cmd, cwd, env=None, t=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
def tests(d):
    env = goenv(); env["GODEBUG"] = "randautoseed=0"
    try: os.remove(os.path.join(d, "pf/myfile_conc_0.bin"))
    except OSError: pass
    r = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=d, env=env, stdout=subprocess.PIPE, text=True)
    log = os.path.join(d, "t.log"); out = os.path.join(d, "t.json")
    open(log, "w").write(r.stdout)
    subprocess.run(["python3", "/opt/vp/results.py", out, "gojson:" + log], check=True, stdout=subprocess.DEVNULL)
    o = json.load(open(out)); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    passed = set(o["passed"] if "passed" in o else [k for k, v in o.items() if v == "pass"])
    return [t for t in b if t not in passed]
def confirm(i):
    p = os.path.join(S, i); d = tempfile.mkdtemp(prefix="plant_")
    w = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        rc0, o0 = sh(["bash", os.path.join(p, "demo.sh")], w)
        rc, o = sh(["git", "apply", os.path.join(p, "patch.diff")], w)
        if rc: return print(i, "PATCH FAILS", o)
        rc, o = sh(["go", "build", "./..."], w, goenv())
        if rc: return print(i, "BUILD FAILS", o)
        miss = tests(w)
        rc1, o1 = sh(["bash", os.path.join(p, "demo.sh")], w)
        ok = rc0 == 0 and rc1 != 0 and not miss
        print(i, "CONFIRMED" if ok else "NOT OK demo0=%d demo1=%d miss=%s" % (rc0, rc1, miss), flush=True)
        if rc0: print(o0[-1500:])
        if not ok and rc1 == 0: print(o1[-500:])
    finally:
        shutil.rmtree(d)
def check(i, tier="quick", props=None):
    p = os.path.join(S, i); meta = json.load(open(os.path.join(p, "meta.json"))); d = tempfile.mkdtemp(prefix="plant_")
    w = os.path.join(d, "repo")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        rc, o = sh(["git", "apply", os.path.join(p, "patch.diff")], w)
        if rc: return print(i, "PATCH FAILS", o)
        for c in props or [meta["property"]]:
            rc, o = sh(["python3", "check.py", c, tier], V, dict(os.environ, VERIF_REPO=w), t=1800)
            print(i, c, {0: "MISSED", 1: "caught"}.get(rc, "ERROR %d" % rc), o.strip().splitlines()[0][:160] if rc == 1 else (o[-600:] if rc != 0 else ""), flush=True)
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(S))
    for i in ids: {"confirm": confirm, "check": check}[sys.argv[1]](i)
