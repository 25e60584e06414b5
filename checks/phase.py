"""C01 to C08: equations, time stepping, clock, solver. Specifications: Equation.tla, Stepper.tla, Solver.tla."""
import json
from lib import vf

EQ_INV = "INVARIANTS Readable SplitWhole ImplicitIsConstant OrderFree Judged Sound SameWhole"
EQ_MC = "SPECIFICATION Spec\n%s\nVIEW View\nCONSTANTS\n Gen = FALSE\n MaxTerms = 1\n Bad = FALSE\n Small = %%s\n Huge = FALSE\n" % EQ_INV
EQ_GEN = "SPECIFICATION Spec\n" + EQ_INV + " Emit\nCONSTANTS\n Gen = TRUE\n MaxTerms = %d\n Bad = %s\n Small = FALSE\n Huge = %s\n"
ST_MC = "SPECIFICATION Spec\nINVARIANTS Simultaneous EveryFieldOnce StageTimes WholeStep Ends\nCONSTANTS\n NF = %d\n Sequential = %s\n"
SHAPES = [[2, 3], [4, 3], [3, 5], [4, 4], [1, 4], [2, 3, 2], [3, 2, 4], [2, 1, 3], [5, 1], [3, 3, 2], [12, 7]]


def plans(ctx, relation=False):
    res = ctx.tlc("StepperMC", ST_MC % (3, "FALSE"))
    bad = ctx.tlc("StepperMC", ST_MC % (2, "TRUE"), expect_error=True)
    if "Invariant Simultaneous is violated" not in bad["out"]:
        raise vf.CheckError("the sequential variant of the stepper specification is not rejected")
    return {p["scheme"]: p["plan"] for t, p in res["printed"] if t == "PLAN" and (relation or p["scheme"] != "implicit")}


def programs(ctx, num, maxterms=4, bad=False):
    res = ctx.tlc("EquationMC", EQ_GEN % (maxterms, "TRUE" if bad else "FALSE", "TRUE" if ctx.pid == "C01" else "FALSE"), simulate=num, depth=70, workers=1)
    ps = [p for t, p in res["printed"] if t == "P"]
    if len(ps) < num // 5:
        raise vf.CheckError("only %d models generated" % len(ps))
    return ps


def uses(p, kinds):
    ks = {u["n"] for u in p["d"]["uterms"] if u["k"] in kinds}
    return any(x["u"] in ks for eq in p["meaning"] for x in eq)


def case(ctx, p, k, plans, **kw):
    scheme = kw.pop("scheme", "euler")
    c = dict(p, shape=SHAPES[k % len(SHAPES)], seed=ctx.seed * 100000 + k, scheme=scheme, plan=plans[scheme],
             dt=[0.01, 0.003, 0.02, 0.05][k % 4], steps=2, start=0, filter=False, timeA=False, order=k % 3, sources=[],
             mods=[], unit=[0, 0, 0, 1e-7, 1e7][k % 5])
    c.update(kw)
    return c


def judge(ctx, cases, minimum, label, split=False):
    """split: a deviation that is only the known different split counts as a violation (with its own key)."""
    rows = ctx.run(ctx.build("phase"), [], cases, died="process ended while running a model", timeout=800)
    cmp_ = 0
    for r in rows:
        c = cases[r["case"]]
        cmp_ += r["compared"]
        if not r["ok"]:
            if r["alt"] and not split:
                cmp_ += 1
                continue
            what = "accepted although it is wrong (%s)" % c["flaw"] if c["bad"] else r["msg"]
            key = "a field whose name contains another name is treated explicitly" if r["alt"] else "%s: %s" % (label, " ; ".join(c["text"]))
            ctx.violation(key, "%s | %s | names %s, order %d, shape %s, %s dt=%s" % (
                what, " ; ".join(c["text"]), json.dumps(c["d"]), c["order"], c["shape"], c["scheme"], c["dt"]), {"case": c, "row": r})
    if not ctx.viol and cmp_ < minimum:
        raise vf.CheckError("only %d steps compared" % cmp_)
    ctx.cov["steps_compared"] = ctx.cov.get("steps_compared", 0) + cmp_
    ctx.cov["worst_relative_deviation"] = max([r["worst"] for r in rows if r["ok"]] + [ctx.cov.get("worst_relative_deviation", 0)])
    ctx.traces(len(rows))
    if cases:
        ctx.sample("%s | %s" % (" ; ".join(cases[0]["text"]), json.dumps(cases[0]["d"])))
    return rows


def selftest(ctx, cases):
    """Binding demonstration: a meaning with one sign changed must be rejected."""
    c = None
    for x in cases:
        if not x["bad"] and any(eq for eq in x["meaning"]):
            c = json.loads(json.dumps(x))
            eq = next(e for e in c["meaning"] if e)
            eq[0]["s"] = -eq[0]["s"]
            c["steps"] = 2
            rows = ctx.run(ctx.build("phase"), [], [c])
            if not rows[0]["ok"]:
                ctx.cov["corrupted_recordings_rejected"] = ctx.cov.get("corrupted_recordings_rejected", 0) + 1
                return
            if rows[0]["compared"] > 0 and eq[0]["l"] == 0:
                break
    raise vf.CheckError("a corrupted meaning was accepted")


def c01(ctx):
    ctx.tlc("EquationMC", EQ_MC % ("TRUE" if ctx.quick else "FALSE"), timeout=600)
    pl = plans(ctx)
    n = 600 if ctx.quick else 6000
    ps = programs(ctx, n)
    cases = [case(ctx, p, k, pl) for k, p in enumerate(ps)]
    bad = programs(ctx, n // 2, bad=True)
    cases += [case(ctx, p, k, pl) for k, p in enumerate(bad)]
    judge(ctx, cases, len(ps) // 2, "equation")
    unknown_lhs(ctx, ps, pl)
    reserved(ctx)
    selftest(ctx, cases)


def reserved(ctx):
    """Names that start with an operator are refused, all others accepted."""
    res = ctx.tlc("Reserved", "SPECIFICATION Spec\nINVARIANTS Unambiguous Emit\n", workers=1)
    cs = [p for t, p in res["printed"] if t == "N"]
    rows = ctx.run(ctx.build("reserve"), [], cs, died="process ended while registering a name")
    for r in rows:
        c = cs[r["case"]]
        if r["verdict"] != c["verdict"]:
            ctx.violation("reserved", "the name %r of a %s was %s, must be %s" % (c["name"], c["kind"], r["verdict"], c["verdict"]), c)
    ctx.cov["names_offered"] = len(rows)
    ctx.traces(len(rows))


def unknown_lhs(ctx, ps, pl):
    """The known deviation: an equation for a name that is not a field evolves the field with the same number."""
    p = next(json.loads(json.dumps(x)) for x in ps if len(x["d"]["fields"]) == 1)
    f = p["d"]["fields"][0]
    p["text"] = [p["text"][0].replace("d%s/dt" % f, "dZZ9/dt", 1)]
    p.update(bad=True, flaw="equation for an unknown name", meaning=[], alt=[])
    r = ctx.run(ctx.build("phase"), [], [case(ctx, p, 0, pl)])[0]
    if not r["ok"]:
        ctx.violation("equation for an unknown name evolves the field with the same number", p["text"][0], p)


# ---------------------------------------------------------------- the solver
SO_MC = ("SPECIFICATION Spec\nINVARIANTS Clock Exactly OncePerStage Forward NoEarly\nPROPERTY Returns\nVIEW View\n"
         "CONSTANTS\n Gen = FALSE\n Aspects = %s\n MaxOps = %d\n MaxSteps = %d\n")
SO_GEN = "SPECIFICATION Spec\nINVARIANTS Clock Exactly Emit\nCONSTANTS\n Gen = TRUE\n Aspects = {}\n MaxOps = %d\n MaxSteps = 3\n"
SO_TRACE = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCONSTANT Aspects = %s\n"
ALL = ("evalinst", "evaltime", "noteinst", "notetime", "calc")
SMALL = [[2, 3], [3, 2], [2, 2, 2], [1, 4], [4, 2]]


def scenarios(ctx, num, pl, schemes):
    res = ctx.tlc("SolverMC", SO_GEN % (3 if ctx.quick else 5), simulate=num, depth=600, workers=1)
    sc = [p for t, p in res["printed"] if t == "S" and p["c"]["scheme"] in schemes]
    ps = [p for p in programs(ctx, 2 * num, maxterms=3)
          if p["d"]["uterms"] and not p["alt"] and any(x["u"] for eq in p["meaning"] for x in eq)]
    if not sc or not ps:
        raise vf.CheckError("no scenarios")
    out = []
    for k, s in enumerate(sc):
        p, c = ps[k % len(ps)], s["c"]
        shape = SMALL[k % len(SMALL)]
        src = [{"f": j % len(p["d"]["fields"]), "pos": [0.5 * j + 1] * len(shape), "a": 0.7 - j, "b": 1.1 if c["start"] < 50 else 11 / c["start"]} for j in range(len(c["srcs"]) * (1 + k % 2))]
        out.append(dict(p, shape=shape, seed=ctx.seed * 1000 + k, scheme=c["scheme"], plan=pl.get(c["scheme"], []),
                        dt=[0.05, 0.02, 0.04][k % 3] if c["scheme"] in pl else 0.004, start=c["start"] if c["scheme"] in pl else c["start"] % 50, epoch=c["epoch"],
                        ncb=c["ncb"], nmon=c["nmon"], order=k % 3, ops=s["ops"], sources=src))
    return out


def runs_of(ctx, cases):
    """Recordings of all scenarios; where the nonlinear solver gives up (it ends the process) there is nothing to judge."""
    recs, at, broke = [], 0, 0
    while at < len(cases):
        try:
            part = ctx.run(ctx.build("solver"), [], cases[at:], allow_fail=True, timeout=600)
        except vf.CheckError as e:
            if "timed out" not in str(e):
                raise
            ctx.violation("process ended while running a scenario", "the code did not come to an end within 600 s", cases[at:])
            break
        recs += [dict(r, case=r["case"] + at) for r in part]
        if ctx.last_rc == 0:
            break
        if ctx.last_rc == 3:
            raise vf.CheckError("harness failed: " + ctx.last_err[-2000:])
        dead = at + int(ctx.last_err[ctx.last_err.rindex("@case ") + 6:].split()[0])
        broke += 1
        if "NewtonKrylov" not in ctx.last_err or cases[dead]["scheme"] != "implicit" or broke > 8 + len(cases) // 50:
            ctx.violation("process ended while running a scenario", "%s | %s" % (ctx.last_err[-600:], json.dumps(cases[dead])[:600]), cases[dead])
            break
        at = dead + 1
    ctx.cov["runs_without_verdict_because_the_nonlinear_solver_gave_up"] = broke
    return recs


def aspects(a):
    return "{" + ", ".join('"%s"' % x for x in a) + "}"


def solver_mc(ctx, asp, deep=False):
    """Model checking of the solver specification, with the aspects that the property is about and with all of them."""
    ctx.tlc("SolverMC", SO_MC % ((aspects(asp), 2, 2) if deep else (aspects(asp), 2, 1)), timeout=800)


def validate(ctx, recs, asp):
    res = ctx.tlc("SolverTrace", SO_TRACE % aspects(asp), files={"trace.ndjson": "\n".join(map(json.dumps, recs)) + "\n"}, workers=1, timeout=600)
    return [p for t, p in res["printed"] if t == "REJECT"]


def record(ctx, num, schemes, asp):
    """Runs scenarios on the real solver and validates the recordings in the aspects this property is about."""
    pl = plans(ctx)
    cases = scenarios(ctx, num, pl, schemes)
    recs = runs_of(ctx, cases)
    runs = sum(1 for r in recs if r["ev"] == "reset")
    if not ctx.viol and runs < len(cases) // 4:
        raise vf.CheckError("only %d of %d scenarios could be judged" % (runs, len(cases)))
    for p in validate(ctx, recs, asp):
        r = recs[p["line"] - 1]
        what = {k: r[k] for k in ("ev", "name", "t", "inst", "der", "i", "epoch", "msg", "kind", "eps", "steps") if r[k] not in ("", 0)}
        c = cases[r["case"]]
        ctx.violation("%s %s" % (r["ev"], c["scheme"]), "event %s is not allowed in state %s (instant %s) | %s | %s | start %d epoch %d ops %s" % (
            json.dumps(what), json.dumps(p["state"]), p["inst"], " ; ".join(c["text"]), json.dumps(c["d"]), c["start"], c["epoch"],
            json.dumps(c["ops"])), {"case": c, "event": r, "state": p})
    ctx.traces(runs)
    ctx.cov["events_validated"] = ctx.cov.get("events_validated", 0) + len(recs)
    ctx.sample(json.dumps([{k: v for k, v in r.items() if v not in ("", 0, [])} for r in recs[1:12]])[:900])
    # binding demonstration: corrupted recordings must be rejected
    run0 = next((r["case"] for r in recs if r["ev"] == "rate"), None)
    if ctx.viol or run0 is None:
        return
    one = [r for r in recs if r["case"] == run0]
    n = 0
    for corrupt in ("drop", "time", "twice", "evaltime", "evalinst", "calc"):
        bad = json.loads(json.dumps(one))
        k = next(i for i, r in enumerate(bad) if r["ev"] in ("note", "end"))
        j = next(i for i, r in enumerate(bad) if r["ev"] == "rate")
        if corrupt == "drop":
            del bad[k]
        elif corrupt == "twice":
            bad.insert(k, bad[k])
        elif corrupt == "time" and "notetime" in asp:
            bad[k]["t"] += 1
        elif corrupt == "evaltime" and "evaltime" in asp:
            bad[j]["t"] -= 1
        elif corrupt == "evalinst" and "evalinst" in asp and bad[0]["scheme"] in ("euler", "rk4"):
            bad[j]["inst"] += 1
        elif corrupt == "calc" and "calc" in asp and bad[0]["scheme"] in ("euler", "rk4"):
            bad[j]["der"] += 1
        else:
            continue
        bad.append(dict(one[0], ev="begin", kind="propagate", eps=1, steps=0))
        if not validate(ctx, bad, asp):
            raise vf.CheckError("a corrupted recording was accepted (%s)" % corrupt)
        n += 1
    ctx.cov["corrupted_recordings_rejected"] = ctx.cov.get("corrupted_recordings_rejected", 0) + n


def numeric(ctx, scheme, n, steps, label, minimum=None, **kw):
    """Random models with their meaning and the plan of the scheme, against the real solver."""
    pl = plans(ctx)
    ps = programs(ctx, n)
    cases = []
    for k, p in enumerate(ps):
        o = dict(scheme=scheme, steps=steps, filter=k % 3 == 0, start=[0, 0, 5, 40][k % 4],
                 timeA=scheme == "euler" and k % 2 == 0, dt=[0.02, 0.05, 0.01, 0.1][k % 4])
        o.update({key: f(k, p) for key, f in kw.items()})
        cases.append(case(ctx, p, k, pl, **o))
    judge(ctx, cases, minimum or len(ps) // 2, label)
    selftest(ctx, cases)
    return cases


REG_MC = "SPECIFICATION Spec\nINVARIANTS Cancels Harmless OrderFree\nVIEW View\nCONSTANTS\n Gen = FALSE\n Num = 0\n"
REG_GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS\n Gen = TRUE\n Num = 0\n"


def c02(ctx):
    n = 500 if ctx.quick else 5000
    pl = plans(ctx)
    ps = programs(ctx, n)
    cases = [case(ctx, p, k, pl, dt=[0.05, 0.1, 0.02][k % 3], timeA=k % 2 == 0) for k, p in enumerate(ps)]
    judge(ctx, cases, len(ps) // 2, "split", split=True)
    selftest(ctx, [c for c in cases if not c["alt"]])
    ctx.tlc("Registration", REG_MC)
    res = ctx.tlc("Registration", REG_GEN, simulate=800 if ctx.quick else 12000, depth=3, workers=1)
    offers = [p for t, p in res["printed"] if t == "T"]
    big = [[4, 3], [4, 4], [5, 1], [12, 7], [5, 2, 3], [4, 1, 2]]
    cs = []
    for k, o in enumerate(offers):
        shapes = big if any(m["w"] in ("neg", "low") for m in o["p"]) else SHAPES
        cs.append(dict(o, shape=shapes[(k // 2) % len(shapes)], seed=k, early=k % 2 == 0))
    rows = ctx.run(ctx.build("implicit"), [], cs, died="process ended while validating a term")
    count = {"refused": 0, "accepted": 0}
    for r in rows:
        c = cs[r["case"]]
        count[c["verdict"]] += 1
        if r["verdict"] != c["verdict"]:
            ctx.violation("registration", "%s was %s, must be %s (%s), shape %s" % (json.dumps(c["p"]), r["verdict"], c["verdict"], r["msg"], c["shape"]), c)
    if not ctx.viol and min(count.values()) < 20:
        raise vf.CheckError("too few offered terms: %s" % count)
    ctx.cov["offered_terms"] = count
    ctx.traces(len(rows))


def c03(ctx):
    asp = ("evalinst", "calc")
    solver_mc(ctx, ALL, not ctx.quick)
    record(ctx, 300 if ctx.quick else 3000, ("euler", "rk4"), asp)
    names(ctx)


def names(ctx):
    """Every name refers to its own data right after initialisation and after a constant was changed."""
    ps = [p for p in programs(ctx, 150 if ctx.quick else 1500) if not p["alt"]]
    cases = [dict(p, shape=SHAPES[k % len(SHAPES)], seed=ctx.seed * 31 + k, order=k % 3) for k, p in enumerate(ps)]
    rows = ctx.run(ctx.build("names"), [], cases, died="process ended while registering a model")
    for r in rows:
        if r["msg"]:
            c = cases[r["case"]]
            ctx.violation("name", "%s | %s | %s order %d" % (r["msg"], " ; ".join(c["text"]), json.dumps(c["d"]), c["order"]), c)
    ctx.cov["names_compared"] = sum(r["compared"] for r in rows)
    ctx.traces(len(rows))


def c04(ctx):
    numeric(ctx, "euler", 700 if ctx.quick else 7000, 3 if ctx.quick else 6, "euler step")
    vandeven(ctx)


VANDEVEN = """SPECIFICATION Spec
INVARIANTS Keeps Removes Damps Symmetric Sharper Emit
PROPERTY Decreases
CONSTANTS
  Orders = {%s}
  Dens = {%s}
"""


def vandeven(ctx):
    """the filter that comes with the library, exactly at rational points"""
    cases = []
    for orders, dens in (("1, 2, 3, 4", "2, 3, 5, 7, 8, 10"), ("1, 2, 3, 4, 5, 6", "3, 4"), ("1, 2, 3", "16, 20")):
        res = ctx.tlc("Vandeven", VANDEVEN % (orders, dens), workers=1)
        cases += [v for t, v in res["printed"] if t == "V"]
    rows = ctx.run(ctx.build("filter"), [], cases, died="process ended in the filter")
    bad = [r for r in rows if not r["ok"]]
    for r in bad[:3]:
        c = cases[r["case"]]
        ctx.violation("vandeven filter", "order %d at %d/%d: %.6g %s, must be %.6g" % (c["order"], c["a"], c["b"], r["got"], r["msg"], c["num"] / c["den"]), {"case": c, "row": r})
    if len(rows) != len(cases) or len(cases) < 100:
        raise vf.CheckError("only %d values of the filter" % len(rows))
    ctx.traces(len(rows))
    ctx.cov["filter_values"] = len(rows)
    c = dict(cases[1], num=cases[1]["num"] + max(1, cases[1]["den"] // 1000))
    if ctx.run(ctx.build("filter"), [], [c])[0]["ok"]:
        raise vf.CheckError("a wrong value of the filter was accepted")


def c05(ctx):
    numeric(ctx, "rk4", 500 if ctx.quick else 5000, 3 if ctx.quick else 6, "rk4 step")
    record(ctx, 120 if ctx.quick else 1500, ("rk4",), ("evalinst", "evaltime"))


def c06(ctx):
    solver_mc(ctx, ("evaltime", "notetime"), not ctx.quick)
    record(ctx, 300 if ctx.quick else 3000, ("euler", "rk4", "implicit", "sdd"), ("evaltime", "notetime"))


def c07(ctx):
    solver_mc(ctx, ALL, not ctx.quick)
    record(ctx, 300 if ctx.quick else 3000, ("euler", "rk4", "implicit", "sdd"), ("notetime", "noteinst"))


def sources(k, p):
    if k % 4 == 3:
        return []
    import random
    r = random.Random(k)
    dim = len(SHAPES[k % len(SHAPES)])
    return [{"f": r.randrange(len(p["d"]["fields"])), "pos": [r.choice([0, 1, 2, 0.5, 1.75, -1]) for _ in range(dim)],
             "a": r.uniform(-1, 1), "b": r.uniform(-2, 2)} for _ in range(1 + k % 3)]


def modifiers(k, p):
    if k % 5 == 4:
        return []
    import random
    r = random.Random(k + 7)
    return [{"f": r.randrange(len(p["d"]["fields"])), "kind": r.choice(["scale", "add", "zeromean", "conj", "shift"])} for _ in range(1 + k % 4)]


def c08(ctx):
    n = 400 if ctx.quick else 4000
    numeric(ctx, "euler", n, 2, "sources and modifiers", sources=sources, mods=modifiers, filter=lambda k, p: False)
    numeric(ctx, "rk4", n // 2, 2, "sources and modifiers", sources=sources, mods=modifiers, filter=lambda k, p: False)


def ongrid(k, p):
    """Point sources at nodes (between nodes the transform of a delta is not that of a real field)."""
    if k % 3:
        return []
    import random
    r = random.Random(k)
    dim = len(SHAPES[k % len(SHAPES)])
    return [{"f": r.randrange(len(p["d"]["fields"])), "pos": [r.randrange(4) for _ in range(dim)], "a": r.uniform(-1, 1),
             "b": r.uniform(-2, 2)}]


def c23(ctx):
    pl = plans(ctx, relation=True)
    ps = programs(ctx, 1000 if ctx.quick else 8000, maxterms=3)
    cases = []
    for k, p in enumerate(ps):
        c = case(ctx, p, k, pl, scheme="implicit", steps=2, start=[0, 7][k % 2], dt=[0.05, 0.1, 0.02, 0.2][k % 4], sources=ongrid(k, p), tight=k % 2 == 0)
        cases.append(c)
    rows, broke = [], 0
    while len(rows) < len(cases) and broke < 6 + len(cases) // 100:
        part = ctx.run(ctx.build("implstep"), [], cases[len(rows):], allow_fail=True, timeout=800)
        rows += [dict(r, case=r["case"] + len(rows)) for r in part]
        if ctx.last_rc != 0:                # the nonlinear solver gives up by ending the process: nothing to judge
            broke += 1
            if "NewtonKrylov" not in ctx.last_err:
                ctx.violation("process ended in a fully implicit step", ctx.last_err[-600:], cases[min(len(rows), len(cases) - 1)])
                break
            rows.append({"case": len(rows), "ok": True, "compared": 0, "linear": 0, "failed": 1, "worst": 0, "msg": ""})
    if broke >= 6 + len(cases) // 100:
        ctx.violation("the nonlinear solver breaks down on benign models", ctx.last_err[-600:], cases[len(rows) - 1])
    for r in rows:
        c = cases[r["case"]]
        if not r["ok"]:
            alt = None
            if c["alt"]:
                alt = ctx.run(ctx.build("implstep"), [], [dict(c, meaning=c["alt"])])[0]["ok"]
            if not alt:
                ctx.violation("implicit step", "%s | %s | %s shape %s dt=%s" % (r["msg"], " ; ".join(c["text"]), json.dumps(c["d"]), c["shape"], c["dt"]), {"case": c, "row": r})
    n = sum(r["compared"] for r in rows)
    ctx.cov["steps_compared"] = n
    ctx.cov["steps_without_explicit_part"] = sum(r["linear"] for r in rows)
    ctx.cov["steps_not_converged"] = sum(r["failed"] for r in rows)
    ctx.cov["worst_relative_deviation"] = max(r["worst"] for r in rows if r["ok"])
    ctx.traces(len(rows))
    if not ctx.viol and n < len(cases) // 3:
        raise vf.CheckError("only %d steps judged" % n)
    good = [r for r in rows if r["ok"] and r["compared"] and r["worst"] > 0]
    for r in good:                                       # binding demonstration
        c = json.loads(json.dumps(cases[r["case"]]))
        eq = next(e for e in c["meaning"] if e)
        if eq[0]["l"] == 0:
            eq[0]["s"] = -eq[0]["s"]
            if ctx.run(ctx.build("implstep"), [], [c])[0]["ok"]:
                raise vf.CheckError("a corrupted meaning was accepted")
            ctx.cov["corrupted_recordings_rejected"] = 1
            break
