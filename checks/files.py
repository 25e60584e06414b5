"""C12: field files and the ParaView index. Specification: Files.tla."""
import json
from lib import vf

MC = """SPECIFICATION Spec
INVARIANTS OnePerPath NoClash Found IndexOfWriter Layout
VIEW View
CONSTANTS
  Prefixes <- PreMC
  FieldNames <- NamesMC
  Epochs = {0, 1, 11}
  Tokens = {1}
  MaxOps = %d
  Gen = FALSE
"""
GEN = """SPECIFICATION Spec
INVARIANTS OnePerPath NoClash Emit
CONSTANTS
  Prefixes <- PreGen
  FieldNames <- NamesGen
  Epochs = {0, 1, 2, 11, 1000000}
  Tokens = {1, 2, 3, 4, 5, 6, 7, 8}
  MaxOps = %d
  Gen = TRUE
"""
TRACE = "SPECIFICATION Spec\nPOSTCONDITION Consumed\n"


def judge(ctx, recs):
    res = ctx.tlc("FilesTrace", TRACE, files={"trace.ndjson": "\n".join(map(json.dumps, recs)) + "\n"}, workers=1, timeout=800)
    return [p for t, p in res["printed"] if t == "REJECT"]


def c12(ctx):
    ctx.tlc("FilesMC", MC % (2 if ctx.quick else 3), timeout=800)
    num, ops = (80, 10) if ctx.quick else (800, 16)
    res = ctx.tlc("FilesMC", GEN % ops, simulate=num, depth=ops + 3, workers=1)
    cases = [p for t, p in res["printed"] if t == "F"]
    few = {}
    for c in cases:  # the largest domains are slow to judge: a few of them suffice
        k = json.dumps(c["shape"])
        few[k] = few.get(k, 0) + 1
        if few[k] > (2 if ctx.quick else 8) and max(c["shape"]) > 15 and len(c["shape"]) + c["shape"][0] != 39:
            c["shape"] = [37, 41] if len(c["shape"]) == 2 else [4, 3, 5]
    recs = ctx.run(ctx.build("files"), [], cases, timeout=600, died="process ended while reading or writing a file")
    for p in judge(ctx, recs):
        r = recs[p["line"] - 1]
        ctx.violation("%s %d extents" % (r["args"]["op"], len(r["shape"])), "after %d operations, %s on %s (refused %s %s): expected %s %s; found %s result %s index %s extents %s formats %s" % (
            r["k"], json.dumps(r["args"]), r["shape"], r["refused"], r["msg"], json.dumps(p["expected"]), p["result"],
            json.dumps([{k: v for k, v in f.items() if k != "pos"} for f in r["dir"]]), r["result"], r["index"], r["dims"], r["formats"][:2]), r)
    ctx.traces(len(cases))
    count = {}
    for r in recs:
        if r["ev"] == "op":
            count[r["args"]["op"]] = count.get(r["args"]["op"], 0) + 1
    ctx.cov["operations"] = count
    ctx.sample(json.dumps(cases[0])[:900])
    if ctx.viol:
        return
    if min(count.get(k, 0) for k in ("raw", "u8", "csv", "load", "index")) < 20:
        raise vf.CheckError("too few operations of some kind: %s" % count)
    bad = 0
    for what in ("toks", "pos", "dims"):
        k = next(i for i, r in enumerate(recs) if r["ev"] == "op" and (
            what == "dims" and r["dims"] and len(set(r["shape"])) > 1 or what == "pos" and any(f["kind"] == "csv" for f in r["dir"]) or what == "toks" and r["dir"]))
        s = max(i for i in range(k) if recs[i]["ev"] == "reset")
        x = json.loads(json.dumps(recs[s:k + 1]))
        if what == "toks":
            x[-1]["dir"][0]["toks"][0] += 1
        elif what == "pos":
            next(f for f in x[-1]["dir"] if f["kind"] == "csv")["pos"][0][0] += 1
        else:
            d = x[-1]["dims"][0]
            x[-1]["dims"][0] = d[::-1] if d != d[::-1] else d + [1]
        bad += len(judge(ctx, x))
    if bad != 3:
        raise vf.CheckError("a corrupted recording was accepted")
    ctx.cov["corrupted_recordings_rejected"] = 3
