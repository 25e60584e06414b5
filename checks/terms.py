"""C22: ready-made terms mean what their documentation says. Specifications: Terms.tla, MisfitMC.tla."""
import json, math
from lib import vf

DT = 1 / 16384
CFG = ("SPECIFICATION Spec\nINVARIANTS Conserving AllReal Agree Green Decay Emit\nCONSTANTS\n Gen = %s\n MaxSteps = %d\n Shapes <- %s\n")
MIS = "SPECIFICATION Spec\nINVARIANTS Pure Uniform Emit\nCONSTANTS\n Gen = TRUE\n MaxSteps = 3\n"
H = math.pi / 2


def corr(t, k2):
    """pair correlation of Greenwood et al. at |k| = sqrt(k2) pi/2"""
    k, T = math.sqrt(k2) * H, 0.25 * t["temp"]
    return max(math.exp(-T * T * k * k / (2 * 0.5 * p["dens"] * p["planes"])) * math.exp(-((k - p["loc"] * math.pi / 4) / (0.5 * p["width"])) ** 2 / 2) for p in t["peaks"])


def visc(t, k2):
    """Q(k) k^Power as documented"""
    k, m = math.sqrt(k2) / 4, (t["threshold"] + 0.37) / 8
    x = 3 * k / (2 * m) - 0.5
    q = 0 if k < m / 3 else 1 if k > m else 2 * x * x - 3 * x ** 3
    return q * k ** t["power"]


def table(t, k2):
    return corr(t, k2) if t["op"].startswith("pair") else visc(t, k2) if t["op"] == "visc" else 1


def pos(sh, i):
    return [i // sh[1], i % sh[1]] if len(sh) == 2 else [i // sh[1] % sh[0], i % sh[1], i // (sh[0] * sh[1])]


def dft(shape, f):
    xs = [pos(shape, i) for i in range(len(f))]
    w = [1, -1j, -1, 1j]         # sides are 1, 2 or 4
    return [sum(f[x] * w[sum(a * b * 4 // s for a, b, s in zip(xs[k], xs[x], shape)) % 4] for x in range(len(f))) for k in range(len(f))]


def expected(c, i, j):
    """transformed field j after one step from the values of step i"""
    st = c["steps"][i]
    n = len(c["k"])
    k2 = [sum(x * x for x in k) for k in c["k"]]
    rate, own = [0j] * n, [0.0] * n
    for e in st["want"][j]:
        t = c["terms"][e["t"] - 1]
        for p in e["parts"]:
            u = H ** p["pow"] / p["den"]
            for k in range(n):
                v = complex(p["w"]["r"][k], p["w"]["i"][k]) * u * table(t, k2[k])
                if p["own"]:
                    own[k] += v.real
                else:
                    rate[k] += v
    return rate, own


def near(got, want, scale=1.0):
    return len(got) == len(want) and all(abs(g - w) <= 1e-9 * scale for g, w in zip(got, want))


def size(v):
    return max([1.0] + [abs(x) for x in v])


def brief(c, j):
    return "grid %s, d%s/dt = %s" % (c["shape"], c["names"][j], " ".join("%s%s%s" % (
        "-" if r["s"] < 0 else "+", "LAP " * r["l"], json.dumps({k: v for k, v in c["terms"][r["t"] - 1].items() if k != "sigma"})) for r in c["eqs"][j])) or "no term"


def judge(c, row):
    out = []
    for i, o in enumerate(row["steps"]):
        st = c["steps"][i]
        for j, nm in enumerate(c["names"]):
            f = dft(c["shape"], st["fields"][j])
            rate, own = expected(c, i, j)
            if not near([complex(a, b) for a, b in zip(o["rate"][j], o["ratei"][j])], rate, size(rate)) or not near(o["own"][j], own, size(own)):
                raise vf.CheckError("the evaluator of the harness differs from the specification: %s" % brief(c, j))
            want = [(f[k] + DT * rate[k]) / (1 - DT * own[k]) for k in range(len(f))]
            got = [complex(a, b) for a, b in zip(o["re"][j], o["im"][j])]
            s = size(want + [DT * r for r in rate])
            ops = "+".join(sorted({c["terms"][r["t"] - 1]["op"] for r in c["eqs"][j]}))
            if not near(got, want, s):
                k = max(range(len(want)), key=lambda k: abs(got[k] - want[k]))
                out.append(("rate of " + ops, "%s: at frequency %s/4 the rate is %s instead of %s (values %s)" % (
                    brief(c, j)[:900], c["k"][k], (got[k] * (1 - DT * own[k]) - f[k]) / DT, rate[k], json.dumps(dict(zip(c["names"], st["fields"])))), (i, j)))
            elif o["imag"][j] > 1e-9 * s:
                out.append(("imaginary part with " + ops, "%s: the field has an imaginary part of %g after one step" % (brief(c, j), o["imag"][j]), (i, j)))
        for m, t in enumerate(c["terms"]):
            out += [(a, b, (i, m)) for a, b in extras(c, t, st, st["extra"][m], o["extra"][m])]
    a = row["again"] or []
    for d, m in zip(a[::2], a[1::2]):
        if not row["msg"] and not d <= 1e-9 * max(1, m):
            out.append(("history", "a step differs by %g from the first step of a model made anew with the same fields: grid %s, %s" % (
                d, c["shape"], "; ".join(brief(c, j)[:400] for j in range(len(c["names"])))), None))
            break
    a = row["other"] or []
    for j, (d, im, m) in enumerate(zip(a[::3], a[1::3], a[2::3])):
        if not d <= 1e-9 * m or not im <= 1e-9 * m:
            out.append(("other grid", "on the grid %s the field %s is wrong by %g after one step (imaginary part %g): %s" % (c["other"], c["names"][j], d, im, brief(c, j)[:600]), None))
    if row["msg"]:
        out.append(("failure", "%s %s" % (row["msg"], json.dumps(c["terms"])[:600]), None))
    return out


def extras(c, t, st, w, g):
    what = json.dumps({k: v for k, v in t.items() if k != "sigma"})
    if t["op"] == "charge":
        want = [[x / w["den"] * 2 / math.pi for x in v] for v in w["current"]]
        for key in ("current", "currentk"):
            for d in range(len(want)):
                if not near(g[key][d], want[d], size(want[d])):
                    yield "current", "%s: component %d of the current (%s) is %s instead of %s" % (what, d, key, g[key][d], want[d])
    if t["op"] in ("mix", "mixfunc"):
        e = [x / 6 for x in w["eval"]]
        if not near(g["eval"], e, size(e)):
            yield "ideal mixture derivative", "%s: %s instead of %s" % (what, g["eval"], e)
        if not near(g["energy"], [w["energy"] / w["den"]], size([w["energy"]])):
            yield "ideal mixture energy", "%s: %s instead of %s" % (what, g["energy"], w["energy"] / w["den"])
    if t["op"] in ("pair", "pairexp"):
        e = sum(x / w["den"] * corr(t, sum(y * y for y in k)) for x, k in zip(w["energy"], c["k"]))
        if not near(g["energy"], [e], size([e])):
            yield "pair correlation energy", "%s: %s instead of %s" % (what, g["energy"], e)
    if t["op"] in ("adv", "divgrad", "sqgrad"):
        for d, v in enumerate(w["grad"]):
            want = [x / w["den"] * H for x in v]
            if not near(g["grad"][d], want, size(want)) or max(map(abs, g["gradim"][d])) > 1e-9 * size(want):
                yield "gradient", "gradient of %s along %d is %s instead of %s" % (t["field"], d, g["grad"][d], want)
            # what is kept on demand is imaginary
            f = dft(c["shape"], st["fields"][c["names"].index(t["field"])])
            ny = [f[k] * (math.pi * (c["k"][k][d] == 2)) for k in range(len(f))]
            im = [x.conjugate() / len(f) for x in dft(c["shape"], [z.conjugate() for z in ny])]
            if not near(g["keep"][d], want, size(want)) or not (near(g["keepim"][d], [x.real for x in im], size(want)) or near(g["keepim"][d], [-x.real for x in im], size(want))):
                yield "gradient with Nyquist frequency", "gradient of %s along %d is %s + i %s instead of %s + i %s" % (t["field"], d, g["keep"][d], g["keepim"][d], want, im)


def judge_misfit(m, row):
    out = []
    sh = m["case"]["shape"]
    for i, o in enumerate(row["steps"]):
        st = m["steps"][i]
        want = [st["want"][pos(sh, x)[st["axis"]]] / st["den"] for x in range(math.prod(sh))]
        if not near(o["rate"][0], want, size(want)):
            raise vf.CheckError("the evaluator of the harness differs from the specification: %s" % json.dumps(m))
        if len(o["re"][0]) != len(want) or max(abs(a - b) for a, b in zip(o["re"][0], want)) > 1e-7 * size(want) or o["imag"][0] > 1e-9:
            out.append(("elastic misfit term", "grid %s, constants %s, misfit %s, field %s along axis %d: term is %s instead of %s" % (
                sh, m["case"]["voigt"], m["case"]["misfit"], [x / 2 for x in st["w"]], st["axis"], o["re"][0], want), (i, 0)))
    for d, im, z in [row["other"]] if row["other"] else []:
        if not d <= 1e-10 * z or not im <= 1e-9:
            out.append(("elastic misfit term on another grid", "grid %s, constants %s, misfit %s: the field is wrong by %g of %g after one step (imaginary part %g)" % (
                m["other"], m["case"]["voigt"], m["case"]["misfit"], d, z, im), None))
    if row["msg"]:
        out.append(("failure of the elastic misfit term", row["msg"], None))
    return out


HELP = "SPECIFICATION Spec\nINVARIANTS Inside Middle Mirror Pushes Emit\nPROPERTIES Increasing Grows\n"


def helpers(ctx):
    """functions of one number that come with the library"""
    cases = [v for t, v in ctx.tlc("Helpers", HELP, workers=1)["printed"] if t == "H"]
    run = lambda cs: ctx.run(ctx.build("helpers"), [], cs, died="process ended in a helper function")
    rows = run(cases)
    for r in rows:
        if r["msg"]:
            c = cases[r["case"]]
            ctx.violation("helper " + c["kind"], "%s | %s" % (r["msg"], json.dumps(c)), c)
    if ctx.viol:
        return
    if len(rows) != len(cases) or len({c["kind"] for c in cases}) != 3 or len(cases) < 500:
        raise vf.CheckError("only %d values of helper functions" % len(rows))
    ctx.traces(len(rows))
    ctx.cov["helper_values"] = len(rows)
    b, p, n = (next(dict(c) for c in cases if c["kind"] == k and (k != "penalty" or c["num"])) for k in ("bound", "penalty", "noise"))
    b["num"] += 1
    p["num"] -= 1
    n["mom"] = dict(n["mom"], var=2.1)
    if not all(r["msg"] for r in run([b, p, n])):
        raise vf.CheckError("a wrong value of a helper function was accepted")


def c22(ctx):
    helpers(ctx)
    res = ctx.tlc("TermsMC", CFG % ("TRUE", 2 if ctx.quick else 3, "S2" if ctx.quick else "S3"), simulate=260 if ctx.quick else 2500, depth=12, workers=1, timeout=860)
    cases = [p for t, p in res["printed"] if t == "T"]
    res = ctx.tlc("MisfitMC", MIS, simulate=150 if ctx.quick else 3000, depth=8, workers=1, timeout=800)
    mis = [p for t, p in res["printed"] if t == "M"]
    binary = ctx.build("terms")
    send = [{k: (v if k != "steps" else [{"fields": s["fields"]} for s in v]) for k, v in c.items() if k != "k"} for c in cases]
    rows = ctx.run(binary, [], send + [{"misfit": m} for m in mis], timeout=800, died="process ended in a model of ready-made terms")
    count, n = {}, 0
    for r in rows:
        i = r["case"]
        if i < len(cases):
            for e in cases[i]["eqs"]:
                for x in e:
                    op = cases[i]["terms"][x["t"] - 1]["op"]
                    count[op] = count.get(op, 0) + len(r["steps"])
            bad = judge(cases[i], r)
        else:
            count["misfit"] = count.get("misfit", 0) + len(r["steps"])
            bad = judge_misfit(mis[i - len(cases)], r)
        n += len(r["steps"])
        for key, text, where in bad:
            ctx.violation(key, text, {"case": cases[i] if i < len(cases) else mis[i - len(cases)], "observed": r, "where": where})
    ctx.cov.update(terms_in_steps=count, models=len(cases), misfit_models=len(mis))
    ctx.traces(n)
    ctx.sample(json.dumps(send[0])[:1500])
    if ctx.viol:
        return
    if len(count) != 13 or min(count.values()) < 20:
        raise vf.CheckError("too little of some kind: %s" % count)
    wrong = done = 0
    seen = set()
    for r in rows:                       # recordings with one value changed are rejected
        i = r["case"]
        if i < len(cases):
            for j, e in enumerate(cases[i]["eqs"]):
                key = tuple(cases[i]["terms"][x["t"] - 1]["op"] for x in e)
                if len(key) == 1 and key not in seen and any(abs(z) > 0.1 for z in expected(cases[i], 0, j)[0]):
                    seen.add(key)
                    x = json.loads(json.dumps(r))
                    rate = expected(cases[i], 0, j)[0]
                    k = max(range(len(rate)), key=lambda k: abs(rate[k]))
                    x["steps"][0]["re"][j][k] += DT * 0.01 * abs(rate[k])
                    done += 1
                    wrong += any(w == (0, j) for _, _, w in judge(cases[i], x))
    if done < 6 or wrong != done:
        raise vf.CheckError("a corrupted recording was accepted (%d of %d rejected)" % (wrong, done))
    ctx.cov["corrupted_recordings_rejected"] = wrong
