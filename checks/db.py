"""C09, C10: the field database. Specification: FieldDB.tla."""
import json
from lib import vf

MC = """SPECIFICATION Spec
INVARIANTS TypeOK Functional
PROPERTIES Isolation Durable RefusalHarmless ReadsHarmless
VIEW View
CONSTANTS
  Handles = {1, 2}
  Shapes <- ShapesMC
  Names = {1, 2}
  Steps = {0, 1}
  Toks = {1}
  Keys = {1}
  Texts = {1}
  MaxOps = %d
  Gen = FALSE
"""
GEN = """SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Handles = {1, 2, 3}
  Shapes <- ShapesGen
  Names = {1, 2, 3, 4, 5, 6, 7}
  Steps = {0, 1, 9, 10, 2000000}
  Toks = {1, 2, 3, 5}
  Keys = {1, 2, 3, 4, 5}
  Texts = {1, 2, 3, 5}
  MaxOps = %d
  Gen = TRUE
"""
TRACE = 'SPECIFICATION Spec\nPOSTCONDITION Consumed\nCONSTANT What = "%s"\n'


BIG = {(2, 3): [37, 41], (3, 2): [41, 37], (2, 3, 2): [12, 11, 13], (2, 2, 3): [11, 12, 13], (3, 2, 1): [41, 37, 1]}


def scaled(ops):
    """the same operations on domains of many nodes"""
    return [dict(o, shape=BIG.get(tuple(o["shape"]), o["shape"])) for o in ops]


def asked(ops):
    """the last stored step of every simulation is read at the end, and of the saving one after every other save"""
    out, saved = [], {}
    for o in ops:
        out.append(o)
        if o["op"] == "save":
            saved.setdefault(o["h"], []).append(o)
            if len(saved[o["h"]]) % 2 == 0:
                out.append(dict(o, op="loadlast", sim=o["h"], pairs=[], step=0))
    return out + [dict(v[-1], op="loadlast", sim=h, pairs=[], step=0) for h, v in sorted(saved.items())]


def behaviours(ctx, num, depth):
    res = ctx.tlc("FieldDBMC", GEN % depth, simulate=num, depth=depth + 2, workers=1)
    out, seen = [], set()
    for t, b in res["printed"]:
        k = json.dumps([b["ops"][:-1], b["shapes"]], sort_keys=True)
        if t == "B" and k not in seen:
            seen.add(k)
            out.append(b)
    if len(out) < num // 2:
        raise vf.CheckError("TLC emitted only %d behaviours" % len(out))
    return out


def replay(ctx, what):
    ctx.tlc("FieldDBMC", MC % (4 if ctx.quick else 5), timeout=600)
    num, depth = (60, 14) if ctx.quick else (500, 22)
    bs = behaviours(ctx, num, depth)
    cases = [{"ops": asked(b["ops"]), "share": i % 3 == 0} for i, b in enumerate(bs)]
    big = [i for i, b in enumerate(bs) if any(o["op"] == "save" and tuple(o["shape"]) in BIG for o in b["ops"][:6])][:2 if ctx.quick else 12]
    for i in big:
        cases[i]["ops"] = scaled(cases[i]["ops"])
    ctx.cov["behaviours_on_large_domains"] = len(big)
    recs = ctx.run(ctx.build("db"), [], cases, timeout=800, died="process ended in the field database")
    res = ctx.tlc("FieldDBTrace", TRACE % what, files={"trace.ndjson": "\n".join(map(json.dumps, recs)) + "\n"},
                  workers=1, timeout=800)
    for t, p in res["printed"]:
        if t == "REJECT":
            r = recs[p["line"] - 1]
            o = r["args"]
            obs = {k: v for k, v in r["obs"].items() if len(json.dumps(v)) < 600}
            ctx.violation("%s %s" % (o["op"], o["shape"]),
                          "after %d operations, %s: expected %s %s; the database has %s, refused=%s result=%s" % (
                              r["k"], json.dumps(o), json.dumps(p["expected"]), p["result"], json.dumps(obs), r["refused"], r["result"]),
                          {"behaviour": cases[r["behaviour"]], "observed": r, "expected": p})
    ctx.traces(len(cases))
    ctx.cov["operations_replayed"] = sum(1 for r in recs if r["ev"] == "op")
    ctx.sample(json.dumps(cases[0])[:900])
    # binding demonstration: a corrupted observation must be rejected
    first = [r for r in recs if r["behaviour"] == 0]
    k = next((i for i, r in enumerate(first) if r["ev"] == "op" and (r["obs"]["fields"] if what == "content" else r["obs"]["positions"])), None)
    for b in range(len(cases)):
        if k is not None:
            break
        first = [r for r in recs if r["behaviour"] == b]
        k = next((i for i, r in enumerate(first) if r["ev"] == "op" and r["obs"]["fields"] and r["obs"]["positions"]), None)
    bad = json.loads(json.dumps(first[:k + 1]))
    if what == "content":
        bad[-1]["obs"]["fields"][0][3] += 1
    else:
        bad[-1]["obs"]["positions"][0][1] += 1
    res = ctx.tlc("FieldDBTrace", TRACE % what, files={"trace.ndjson": "\n".join(map(json.dumps, bad)) + "\n"}, workers=1)
    if not any(t == "REJECT" for t, _ in res["printed"]):
        raise vf.CheckError("a corrupted recording was accepted")
    ctx.cov["corrupted_recordings_rejected"] = 1


def c09(ctx):
    replay(ctx, "content")


def c10(ctx):
    replay(ctx, "positions")
