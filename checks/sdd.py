"""C21: shrinking dimer. Specifications: Sdd.tla (life, clock, length), Equation.tla (forces)."""
import json
from lib import vf
from checks.phase import programs, SHAPES
from checks.conserve import stable

MC = ("SPECIFICATION Spec\nINVARIANTS NeverBelow Clock NoEarlyStep\nPROPERTIES Shrinks RefusalChangesNothing\nVIEW View\n"
      "CONSTANTS\n Gen = FALSE\n MaxOps = %d\n")
GEN = "SPECIFICATION Spec\nINVARIANTS NeverBelow Clock NoEarlyStep Emit\nCONSTANTS\n Gen = TRUE\n MaxOps = %d\n"


def c21(ctx):
    ctx.tlc("Sdd", MC % (6 if ctx.quick else 8), timeout=600)
    res = ctx.tlc("Sdd", GEN % (12 if ctx.quick else 16), simulate=500 if ctx.quick else 6000, depth=20, workers=1)
    bs = [p for t, p in res["printed"] if t == "D"]
    ps = [p for p in programs(ctx, 2 * len(bs), maxterms=3) if not p["alt"]]
    cases = []
    for k, b in enumerate(bs):
        p, shape = ps[k % len(ps)], SHAPES[k % len(SHAPES)]
        cases.append(dict(p, **b, shape=shape, seed=ctx.seed * 1000 + k, order=k % 3, dt=stable(p, shape, [0.02, 0.01, 0.05][k % 3]),
                          alpha=[0.5, 0.3, 0.8][k % 3], tau=[1.0, 0.7][k % 2], timeA=k % 2 == 0))
    rows = ctx.run(ctx.build("sdd"), [], cases, died="process ended in the dimer stepper", timeout=600)
    for r in rows:
        c = cases[r["case"]]
        if not r["ok"]:
            ctx.violation("dimer", "%s | %s | %s shape %s dt=%s alpha=%s ops %s" % (r["msg"], " ; ".join(c["text"]), json.dumps(c["d"]),
                          c["shape"], c["dt"], c["alpha"], [o["op"] for o in c["hist"]]), c)
    n = sum(r["compared"] for r in rows)
    multi = sum(r["compared"] for r in rows if len(cases[r["case"]]["d"]["fields"]) > 1)
    ctx.cov.update(steps_compared=n, steps_with_several_fields=multi, operations=sum(r["ops"] for r in rows),
                   refusals=sum(o["refused"] for c in cases for o in c["hist"]),
                   worst_relative_deviation=max([r["worst"] for r in rows if r["ok"]] + [0]))
    ctx.traces(len(rows))
    ctx.sample(" ; ".join(cases[0]["text"]) + " " + json.dumps(cases[0]["hist"])[:500])
    if not ctx.viol and (n < 60 or multi < 20):
        raise vf.CheckError("only %d steps judged (%d with several fields)" % (n, multi))
    if not ctx.viol:
        c = next(cases[r["case"]] for r in rows if r["compared"] > 1 and any(x["kind"] == "rate" and x["l"] == 0 for e in cases[r["case"]]["meaning"] for x in e))
        bad = [json.loads(json.dumps(c)) for _ in range(3)]
        x = next(x for e in bad[0]["meaning"] for x in e if x["kind"] == "rate" and x["l"] == 0)
        x["s"] = -x["s"]
        i = next(i for i, o in enumerate(c["hist"]) if o["op"] == "step" and not o["refused"])
        bad[1]["hist"][i]["step"] += 1
        bad[2]["hist"][i]["len"] += 1
        if any(r["ok"] for r in ctx.run(ctx.build("sdd"), [], bad)):
            raise vf.CheckError("a corrupted expectation was accepted")
        ctx.cov["corrupted_recordings_rejected"] = 3
