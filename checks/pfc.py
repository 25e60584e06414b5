"""C24: crystals: reciprocal lattice, mode expansion and its minimum. Specification: Pfc.tla."""
import json, re
from lib import vf

MC = "SPECIFICATION Spec\nINVARIANTS Duality ChangeOk MillerOk Polygons MeanOk\nVIEW View\nCONSTANTS\n Gen = FALSE\n MaxOps = 1\n"
GEN = "SPECIFICATION Spec\nINVARIANT Emit\nCONSTANTS\n Gen = TRUE\n MaxOps = %d\n"
KNOWN = "cell of Triangular2D spans a square lattice"
KINDS = ("cell", "hkl", "change", "density", "mean", "solve", "fit", "ideal", "quad", "starts", "blend", "corr", "named")


def close(got, want):
    t = 1e-6 * max([1] + [abs(w) for w in want])
    return len(got) == len(want) and all(abs(g - w) <= t for g, w in zip(got, want))


def same_starts(got, o):
    k = len(o["x"])
    g = sorted([round(v, 9) for v in got[i:i + k]] for i in range(0, len(got), k))
    return g == sorted([float(v) for v in s] for s in o["set"])


def judge(ops, row):
    out = []
    for o, got, bad in zip(ops, row["got"], row["bad"]):
        brief = json.dumps({k: v for k, v in o.items() if k not in ("want", "p3", "p4")})[:500]
        where = "%s of %s: " % (brief, json.dumps({k: ops[0][k] for k in ("C", "d", "modes")}))
        if o["op"] == "named" and re.search(r"Triangular2D\(\S+\): 4 nearest neighbours at the squared distance 2 \(a/2\)\^2 and the squared volume 4,", bad):
            out.append((KNOWN, where + bad, o))
        elif bad:
            out.append((o["op"] + (" " + o["name"] if o["op"] == "named" else ""), where + bad, o))
        elif o["op"] == "starts":
            if not same_starts(got, o):
                out.append(("starts", where + "starting points %s" % got, o))
        elif not close(got, o["want"]):
            out.append((o["op"], where + "%s instead of %s (in units of the specification)" % (got[:30], o["want"][:30]), o))
    if row["msg"]:
        o = ops[len(row["got"])]
        out.append(("failure " + o["op"], "%s | %s %s" % (row["msg"], json.dumps({k: v for k, v in o.items() if k not in ("p3", "p4")}), json.dumps(ops[0])), o))
    return out, len(row["got"])


def trim(cases, ctx):
    """3D minimisations and means are slow: a share of them"""
    left = 3 if ctx.quick else 60
    mean = 12 if ctx.quick else 300
    res = []
    for c in cases:
        k = []
        for o in c:
            if c[0]["d"] == 3 and o["op"] == "solve":
                left -= 1
                if left < 0:
                    continue
            if c[0]["d"] == 3 and o["op"] == "mean":
                mean -= 1
                if mean < 0:
                    continue
            k.append(o)
        res.append(k)
    return res


def c24(ctx):
    ctx.tlc("PfcMC", MC, timeout=600)
    res = ctx.tlc("PfcMC", GEN % (12 if ctx.quick else 16), simulate=90 if ctx.quick else 1500, depth=20, workers=1, timeout=800)
    cases = trim([p for t, p in res["printed"] if t == "P"], ctx)
    rows = ctx.run(ctx.build("pfc"), [], cases, timeout=800, died="process ended in the pfc package")
    count = {k: 0 for k in KINDS}
    for r in rows:
        bad, n = judge(cases[r["case"]], r)
        for o in cases[r["case"]][:n]:
            count[o["op"]] += 1
        for key, text, o in bad:
            ctx.violation(key, text, {"behaviour": cases[r["case"]], "observed": r["got"], "operation": o})
    ctx.cov["operations"] = count
    ctx.traces(sum(count.values()))
    ctx.sample(json.dumps(cases[0])[:1500])
    if [k for k, _, _ in ctx.viol if k != KNOWN]:
        return
    if min(count.values()) < 10:
        raise vf.CheckError("too little of some kind: %s" % count)
    wrong = 0
    kinds = [k for k in KINDS if k not in ("solve", "fit", "named")]
    for kind in kinds:
        c, r, i = next((cases[r["case"]], r, i) for r in rows for i, o in enumerate(cases[r["case"]]) if o["op"] == kind and any(abs(v) > 0.5 for v in r["got"][i]))
        x = json.loads(json.dumps(r))
        j = max(range(len(x["got"][i])), key=lambda j: abs(x["got"][i][j]))
        x["got"][i][j] *= 1.001
        wrong += any(o is c[i] for _, _, o in judge(c, x)[0])
    if wrong != len(kinds):
        raise vf.CheckError("a corrupted recording was accepted")
    ctx.cov["corrupted_recordings_rejected"] = wrong
