"""C25: images on a grid (crystals, turned grids, grain boundaries). Specification: Image.tla."""
import json
from lib import vf

MC = """SPECIFICATION Spec
INVARIANTS Periodic OnlyBorder Sound Fixed Quarters Accepts
CONSTANTS
  Gen = FALSE
  MaxOps = %d
"""
GEN = """SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Gen = TRUE
  MaxOps = %d
"""
KNOWN = "crystal drawn below zero"
TRACE = "SPECIFICATION Spec\nPOSTCONDITION Consumed\n"


def judge(ctx, recs):
    res = ctx.tlc("ImageTrace", TRACE, files={"trace.ndjson": "\n".join(map(json.dumps, recs)) + "\n"}, workers=1, timeout=850)
    return [p for t, p in res["printed"] if t == "REJECT"]


def c25(ctx):
    ctx.tlc("ImageMC", MC % (0 if ctx.quick else 1), timeout=800)
    num, ops = (60, 6) if ctx.quick else (400, 9)
    res = ctx.tlc("ImageMC", GEN % ops, simulate=num, depth=ops + 3, workers=1, timeout=800)
    cases = [p for t, p in res["printed"] if t == "I"]
    for c in cases:
        for o in c["ops"]:
            o["k"] = o["c"] if o["op"] == "build" else None
    recs = ctx.run(ctx.build("image"), [], cases, timeout=600, died="process ended while handling an image")
    for r in recs:
        r["op"].pop("k", None)
    count = {}
    for r in recs:
        k = "%s %dD" % (r["op"]["op"], len(r["shape"]))
        count[k] = count.get(k, 0) + 1
    for p in judge(ctx, recs):
        r = recs[p["line"] - 1]
        key = KNOWN if p["known"] else "%s %s" % (r["op"]["op"], r["shape"])
        ctx.violation(key, "%s on a grid %s: refused %s %s; before %s after %s %s" % (
            json.dumps(r["op"]), r["shape"], r["refused"], r["msg"], recs[p["line"] - 2]["after"][:40], r["after"][:40], r["table"][:6]), {"case": cases[r["case"]], "record": r})
    ctx.traces(len(recs))
    ctx.cov["operations"] = count
    ctx.sample(json.dumps(cases[0])[:900])
    if any(v[0] != KNOWN for v in ctx.viol):
        return
    if min(count.get(k, 0) for k in ("build 2D", "build 3D", "turn 2D", "tilt 2D", "csv 2D", "csv 3D", "copy 2D", "turn 3D")) < 3:
        raise vf.CheckError("too few operations of some kind: %s" % count)
    wrong = done = 0
    for op in ("turn", "tilt", "csv", "build"):
        for k, r in enumerate(recs):
            if r["op"]["op"] == op and len(r["shape"]) == 2 and min(r["shape"]) > 5 and not (r["op"]["t"] and r["op"]["t"][1] == 0) and recs[k - 1]["op"]["op"] == "fill":
                x = json.loads(json.dumps(recs[k - 1:k + 1]))
                if op == "csv":
                    x[1]["table"][1][1] += 1
                else:
                    x[1]["after"] = x[1]["after"][3:] + x[1]["after"][:3]
                done += 1
                wrong += any(p["line"] == 2 and not p["known"] for p in judge(ctx, x))
                break
    if done < 3 or wrong != done:
        raise vf.CheckError("a corrupted recording was accepted (%d of %d)" % (wrong, done))
    ctx.cov["corrupted_recordings_rejected"] = wrong
