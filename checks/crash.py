"""C19: interruption of store operations. Specifications: FieldDB, FieldDBCrash."""
import json, os, subprocess
from lib import vf
from checks.db import behaviours, scaled, BIG

MC = """SPECIFICATION Spec
INVARIANTS Atomic Sound Durable
PROPERTY CrashKeeps
VIEW View
CONSTANTS
  Handles = {1, 2}
  Shapes <- ShapesMC
  Names = {1, 2}
  Steps = {0}
  Toks = {1}
  MaxOps = %d
  MaxCrash = %d
"""
TRACE = "SPECIFICATION Spec\nPOSTCONDITION Consumed\n"
STORES = ("save", "comment", "attr", "text", "series")


def shim(ctx):
    out = os.path.join(ctx.work, "crash.so")
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", out, os.path.join(vf.VERIF, "harness", "shim", "crash.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise vf.CheckError("gcc: " + r.stdout)
    return out


def judge(ctx, recs):
    res = ctx.tlc("FieldDBCrashTrace", TRACE, files={"trace.ndjson": "\n".join(map(json.dumps, recs)) + "\n"}, workers=1, timeout=800)
    return [p for t, p in res["printed"] if t == "REJECT"]


def c19(ctx):
    ctx.tlc("FieldDBCrashMC", MC % ((2, 1) if ctx.quick else (3, 2)), timeout=800)
    bs = behaviours(ctx, 60 if ctx.quick else 300, 9)
    pool, modes = [], ["exit", "torn", "after", "fail", "once"]
    for b in bs:
        ops = [o for o in b["ops"] if o["op"] in STORES]
        if len(ops) >= 6 and any(o["op"] == "save" for o in ops[:3]):
            pool.append(ops)
    want = 24 if ctx.quick else 120
    if len(pool) < want // 2:
        raise vf.CheckError("only %d behaviours with enough store operations" % len(pool))
    cases = []
    for i, ops in enumerate(pool[:want]):
        first, then = ops[:3], [dict(o, h=o["h"] + 3) for o in ops[3:6]]
        dom = next((o["shape"] for o in first if o["op"] == "save"))
        then.append({"op": "save", "h": 4, "shape": dom, "step": 7, "pairs": [[2, 1], [5, 3]], "text": 0, "sim": 0})
        # one shape per simulation
        shapes = {}
        for o in then:
            o["shape"] = shapes.setdefault(o["h"], o["shape"])
        # with another shape, a save that would have been refused goes through: nothing is stored twice under one name
        seen = set()
        for o in then:
            if o["op"] == "save":
                o["pairs"] = [x for x in o["pairs"] if (o["h"], o["step"], x[0]) not in seen]
                seen |= {(o["h"], o["step"], x[0]) for x in o["pairs"]}
        cases.append({"ops": first, "then": then, "share": i % 3 == 0, "mode": modes[i % 5], "again": [0, 5, 0, 0, 7, 11][i % 6],
                      "skip": 3 if ctx.quick else 1})
    big = next(c for c in cases if c["mode"] in ("exit", "torn", "after") and any(o["op"] == "save" and tuple(o["shape"]) in BIG for o in c["ops"]))
    big.update(ops=scaled(big["ops"]), then=scaled(big["then"]), skip=11 if ctx.quick else 3)
    os.environ["VERIF_SHIM"] = shim(ctx)
    recs = ctx.run(ctx.build("dbcrash"), [], cases, timeout=800, died="process ended in the field database")
    heads = {}
    cur = None
    for i, r in enumerate(recs):
        if r["ev"] == "reset":
            cur = r
        heads[i + 1] = cur
    for p in judge(ctx, recs):
        r, h = recs[p["line"] - 1], heads[p["line"]]
        c = cases[h["behaviour"]]
        ctx.violation("crash %s %s" % (c["mode"], p["what"]), "interrupted (%s) at change %d of the file, %s: before %s; found %s" % (
            c["mode"], h["at"], json.dumps(r.get("args")), json.dumps(p["before"]), json.dumps({k: v for k, v in r.items() if k != "args"})[:1500]),
            {"case": c, "at": h["at"], "record": r, "before": p["before"]})
    points = sum(r["ev"] == "reset" for r in recs)
    inside = sum(r["ev"] == "crash" and r["args"]["op"] != "none" for r in recs)
    ctx.cov.update(crash_points=points, interruptions_inside_an_operation=inside, per_mode={m: sum(
        r["ev"] == "reset" and cases[r["behaviour"]]["mode"] == m for r in recs) for m in modes})
    ctx.traces(points)
    ctx.sample(json.dumps(cases[0])[:700])
    if ctx.viol:
        return
    if inside < 100:
        raise vf.CheckError("only %d interruptions inside an operation" % inside)
    # a recording with a torn field, a lost field, half a position table must be rejected
    k = next(i for i, r in enumerate(recs) if r["ev"] == "crash" and r["obs"]["fields"] and r["args"]["op"] == "none")
    s = max(i for i in range(k) if recs[i]["ev"] == "reset")
    bad = 0
    for how in range(3):
        x = json.loads(json.dumps(recs[s:k + 1]))
        if how == 0:
            x[-1]["obs"]["fields"][0][3] = -2
        elif how == 1:
            x[-1]["obs"]["fields"].pop()
        else:
            x[-1]["obs"]["positions"].pop()
        bad += len(judge(ctx, x))
    if bad != 3:
        raise vf.CheckError("a corrupted recording was accepted")
    ctx.cov["corrupted_recordings_rejected"] = 3
