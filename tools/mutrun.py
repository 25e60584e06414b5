#!/usr/bin/env python3
"""mutrun.py MUTS.jsonl OUT.jsonl FRACTION SEED WORKERS [file-prefix...]: samples mutants (tools/mutate), drops the ones the
repository's tests notice and runs the quick checks of the touched file against the rest. Works on scratch copies only."""
import json, os, random, shutil, subprocess, sys, threading, queue
muts, out, frac, seed, nw = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
pre = tuple(sys.argv[6:])
MAP = {
 "pf/model.go": "C01 C02 C03 C08 C04 C07 C22 C27", "pf/rhsBuilder.go": "C01 C02", "pf/userDefinedTerm.go": "C02 C03 C22 C08", "pf/euler.go": "C04 C06",
 "pf/rk4.go": "C05 C06", "pf/implicitEuler.go": "C23 C06", "pf/solver.go": "C07 C06 C04 C27", "pf/sourceTerm.go": "C08", "pf/sdd.go": "C21",
 "pf/database.go": "C09 C10 C19 C11", "pf/fileIO.go": "C12", "pf/xdmf.go": "C12", "pf/util.go": "C12 C02 C03 C01 C22 C14", "pf/vandeven.go": "C04 C05",
 "pf/volumeConserving.go": "C18", "cmd/contour.go": "C26", "cmd/lineplot.go": "C26", "cmd/energy.go": "C20", "cmd/elast.go": "C20", "pf/diffOp.go": "C22 C01 C02",
 "pfc/miller.go": "C16", "pfc/periodicFieldInit.go": "C25", "pfc/pairCorrelation.go": "C24 C22", "pfc/ideal.go": "C24 C22", "pfc/lattice.go": "C24", "pfc/mode_solver.go": "C24", "pfc/initialGuessExplorer.go": "C24", "pfc/quadrature.go": "C24", "pfc/twoPhaseCorrFunc.go": "C24",
 "pfutil/affine.go": "C17", "pfutil/blur.go": "C17", "pfutil/fftWrap.go": "C14", "pfutil/grid.go": "C13 C17 C25", "pfutil/indexPositionConversion.go": "C13 C10",
 "pfutil/iterators.go": "C13", "pfutil/shapes.go": "C17", "pfutil/sliceOperations.go": "C13 C22 C17", "pfutil/sliceWrappers.go": "C13 C17", "pfutil/voronoi.go": "C17",
}
for f in "advection chargeTransport gradientCalculator homoLinElast negative_value_penalty pairCorrelationTerm spectralViscosity squareGradientTerm tensorialHessian".split():
    MAP["pf/%s.go" % f] = "C22"
for f in "attr comment db export info list root time util".split():
    MAP["cmd/%s.go" % f] = "C11"
for f in "effectiveForce linearElasticity perturbation rank4 shapes strainEnergyCLI".split():
    MAP["elasticity/%s.go" % f] = "C20"
PK = {"pf": "./pf", "cmd": "./cmd", "pfc": "./pfc ./pf", "pfutil": "./pfutil ./pfc ./elasticity ./pf", "elasticity": "./elasticity ./pf"}
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1", GODEBUG="randautoseed=0")
ms = [json.loads(l) for l in open(muts)]
ms = [m for m in ms if m["file"] in MAP and (not pre or m["file"].startswith(pre))]
r = random.Random(seed); r.shuffle(ms); ms = ms[:int(len(ms) * frac)]
done = set()
if os.path.exists(out):
    done = {(d["file"], d["start"], d["end"], d["new"]) for d in map(json.loads, open(out))}
ms = [m for m in ms if (m["file"], m["start"], m["end"], m["new"]) not in done]
q = queue.Queue(); [q.put(m) for m in ms]
lock = threading.Lock()
base = "/tmp/mw%d" % os.getpid()
flaky = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def work(k):
    d = "%s/%d" % (base, k); os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded"))
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        p = d + "/repo/" + m["file"]; s = open(p, "rb").read()
        try:
            open(p, "wb").write(s[:m["start"]] + m["new"].encode() + s[m["end"]:])
            res = one(m, d)
        except Exception as e:
            res = {"verdict": "error " + repr(e)}
        finally:
            open(p, "wb").write(s)
        m.update(res)
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
def one(m, d):
    R = d + "/repo"
    if subprocess.run(["go", "build", "./..."], cwd=R, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
        return {"verdict": "nobuild"}
    try:
        x = subprocess.run(["go", "test", "-vet=off", "-failfast", "-timeout", "120s", "-count=1"] + PK[m["file"].split("/")[0]].split(), cwd=R, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
        if x.returncode: return {"verdict": "tests"}
    except subprocess.TimeoutExpired:
        return {"verdict": "tests"}
    rc = {}
    for c in MAP[m["file"]].split():
        try:
            x = subprocess.run(["python3", d + "/verif/check.py", c, "quick"], env=dict(os.environ, VERIF_REPO=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            rc[c] = "timeout"; continue
        rc[c] = x.returncode
        if x.returncode == 1: return {"verdict": "caught", "rc": rc, "out": x.stdout[:300]}
        if x.returncode != 0: rc[c] = x.stdout[-300:]
    return {"verdict": "missed", "rc": rc}
ts = [threading.Thread(target=work, args=(k,)) for k in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base)
