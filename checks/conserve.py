"""C18: conservation. Specifications: Conservation.tla (with Equation.tla and Stepper.tla), Multiplier.tla."""
import json, math
from lib import vf
from checks.phase import plans, programs, SHAPES

CO_MC = "SPECIFICATION Spec\nINVARIANTS KeepsMean OwnMean\nCONSTANTS\n MaxSteps = %d\n Values <- Vals\n"
MU_MC = "SPECIFICATION Spec\nINVARIANT Telescopes\nPROPERTIES FirstKeeps Still\nVIEW View\nCONSTANTS\n Gen = FALSE\n MaxOps = %d\n"
MU_GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS\n Gen = TRUE\n MaxOps = 8\n"


def stable(p, shape, dt):
    """A time step small enough that rounding errors of explicit terms under Laplacians do not grow."""
    k2 = sum((2 * math.pi * (n // 2) / n) ** 2 for n in shape)
    l = max([x["l"] for eq in p["meaning"] for x in eq if x["kind"] == "rate"] + [0])
    return min(dt, 0.3 / max(1.0, k2) ** l)


def c18(ctx):
    ctx.tlc("ConservationMC", CO_MC % (2 if ctx.quick else 3), timeout=600)
    ctx.tlc("Multiplier", MU_MC % (4 if ctx.quick else 5), timeout=600)
    pl = plans(ctx, relation=True)
    ps = [p for p in programs(ctx, 4000 if ctx.quick else 40000, maxterms=2) if any(p["conserved"]) and not p["alt"]]
    cases = []
    for k, p in enumerate(ps):
        scheme = ["euler", "rk4", "euler", "implicit", "rk4"][k % 5]
        keep = p["conserved"]
        noise = [c and (k // 5) % 2 == 0 and scheme != "implicit" for c in keep]
        cases.append(dict(p, shape=SHAPES[k % len(SHAPES)], seed=ctx.seed * 1000 + k, scheme=scheme, plan=pl[scheme], order=k % 3,
                          dt=stable(p, SHAPES[k % len(SHAPES)], [0.02, 0.005, 0.01, 0.05][k % 4]), steps=6 if ctx.quick else 25, noise=noise, conserved=keep,
                          vandeven=3 if k % 7 == 3 and scheme != "implicit" else 0))
    res = ctx.tlc("Multiplier", MU_GEN, simulate=150 if ctx.quick else 3000, depth=14, workers=1)
    ms = [dict(p, multiplier=True, shape=SHAPES[k % len(SHAPES)], scheme="") for k, (t, p) in enumerate(x for x in res["printed"] if x[0] == "M")]
    ms += [dict(multiplier=True, shape=s, scheme=sch, dt=0.01, steps=6) for s in SHAPES for sch in ("euler", "rk4")]
    go(ctx, cases, ms)


def go(ctx, cases, ms):
    todo = cases + ms
    rows, broke = [], 0
    while len(rows) < len(todo) and broke < 6 + len(todo) // 100:
        part = ctx.run(ctx.build("conserve"), [], todo[len(rows):], allow_fail=True, timeout=800)
        rows += [dict(r, case=r["case"] + len(rows)) for r in part]
        if ctx.last_rc != 0:
            broke += 1
            if "NewtonKrylov" not in ctx.last_err:
                ctx.violation("process ended", ctx.last_err[-600:], todo[min(len(rows), len(todo) - 1)])
                break
            rows.append({"case": len(rows), "ok": True, "kept": 0, "moved": 0, "noisy": 0, "worst": 0, "msg": ""})
    if broke >= 6 + len(todo) // 100:
        raise vf.CheckError("the nonlinear solver ends the process too often")
    for r in rows:
        c = todo[r["case"]]
        if not r["ok"]:
            if c.get("multiplier"):
                ctx.violation("multiplier", "%s | %s" % (r["msg"], json.dumps(c)[:500]), c)
            else:
                ctx.violation("mean " + c["scheme"], "%s | %s | noise %s filter %d shape %s dt=%s %s" % (r["msg"], " ; ".join(c["text"]),
                              c["noise"], c["vandeven"], c["shape"], c["dt"], json.dumps(c["d"])), c)
    count = {k: sum(r[k] for r in rows if r["case"] < len(cases)) for k in ("kept", "moved", "noisy")}
    count["notifications"] = sum(r["kept"] for r in rows if r["case"] >= len(cases))
    for s in ("euler", "rk4", "implicit"):
        count["kept_" + s] = sum(r["kept"] for r in rows if r["case"] < len(cases) and todo[r["case"]]["scheme"] == s)
    ctx.cov.update(count)
    ctx.traces(len(rows))
    if not ctx.viol and min(count.values()) < 20:
        raise vf.CheckError("too little observed: %s" % count)
    # binding demonstrations
    if not ctx.viol:
        c = next(x for x in cases if not all(x["conserved"]) and x["scheme"] == "euler" and rows[cases.index(x)]["moved"])
        bad = [dict(c, conserved=[True] * len(c["conserved"]), noise=[]), json.loads(json.dumps(ms[0]))]
        bad[1]["hist"][2]["mult"] += 1
        if any(r["ok"] for r in ctx.run(ctx.build("conserve"), [], bad)):
            raise vf.CheckError("a corrupted expectation was accepted")
        ctx.cov["corrupted_recordings_rejected"] = 2
    ctx.sample(" ; ".join(cases[0]["text"]) + " conserved %s" % cases[0]["conserved"])
    ctx.sample(json.dumps(ms[0]))
