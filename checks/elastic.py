"""C20: elastic tensors, rotations, equilibrium and the energy of inclusions. Specification: Elastic.tla."""
import json, math, os, re, subprocess
from lib import vf

MC = ("SPECIFICATION Spec\nINVARIANTS Symmetric Orthogonal RotateBack EnergyKept\nPROPERTY IsotropicStays\nVIEW View\n"
      "CONSTANTS\n Gen = FALSE\n MaxOps = %d\n")
GEN = "SPECIFICATION Spec\nINVARIANTS Symmetric Emit\nCONSTANTS\n Gen = TRUE\n MaxOps = %d\n"
KINDS = ("iso", "cubic", "voigt", "turn", "contract", "energy", "solve", "strain", "force", "perturb", "slab", "flat", "ellipsoid")


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def wanted(o):
    if "nodes" in o:
        return flat([n["want"] for n in o["nodes"]])
    return (o["matrix"] if o["op"] == "turn" else []) + o["want"]


def close(got, want):
    t = 1e-7 * max([1] + [abs(w) for w in want])
    return len(got) == len(want) and all(abs(g - w) <= t for g, w in zip(got, want))


def judge(ops, row):
    """[(key, text, op)] and the number of operations judged"""
    out = []
    for o, got in zip(ops, row["got"]):
        want = wanted(o)
        if close(got, want):
            continue
        brief = {k: v for k, v in o.items() if k not in ("want", "nodes", "matrix", "everywhere")}
        if o["op"] == "flat" and o["inc"] and close(got, [o["everywhere"]]):
            out.append(("inclusion constants outside the inclusion", "CalculateStrainEnergy counts the constants of the inclusion in the whole domain: %s, energy %s for %s" % (
                json.dumps(brief), got, want), o))
            continue
        bad = [i for i, (g, w) in enumerate(zip(got, want)) if abs(g - w) > 1e-7 * max([1] + [abs(x) for x in want])][:6]
        out.append((o["op"], "%s: values %s are %s instead of %s (in units of the specification)" % (json.dumps(brief)[:700], bad, [got[i] for i in bad], [want[i] for i in bad]), o))
        if o["op"] in ("iso", "cubic", "voigt", "turn"):      # what follows is about another tensor
            break
    else:
        if row["msg"]:
            out.append(("failure", row["msg"], ops[len(row["got"])]))
    return out, len(row["got"])


def c20(ctx):
    ctx.tlc("ElasticMC", MC % (2 if ctx.quick else 4), timeout=800)
    res = ctx.tlc("ElasticMC", GEN % (12 if ctx.quick else 16), simulate=220 if ctx.quick else 6000, depth=20, workers=1, timeout=800)
    cases = [p for t, p in res["printed"] if t == "E"]
    binary = ctx.build("elastic")
    rows = ctx.run(binary, [], cases, timeout=800, died="process ended in the elasticity package")
    count = {k: 0 for k in KINDS}
    known = 0
    for r in rows:
        bad, n = judge(cases[r["case"]], r)
        for o in cases[r["case"]][:n]:
            count[o["op"]] += 1
        for key, text, o in bad:
            ctx.violation(key, text, {"behaviour": cases[r["case"]], "observed": r["got"], "operation": o})
    n = cli(ctx, [o for c in cases for o in c if o["op"] == "flat"][:6 if ctx.quick else 30], binary)
    ctx.cov.update(operations=count, command_line_energies=n)
    ctx.traces(sum(count.values()) + n)
    ctx.sample(json.dumps(cases[0])[:1500])
    if [k for k, _, _ in ctx.viol if k != "inclusion constants outside the inclusion"]:
        return
    if min(count.values()) < 10:
        raise vf.CheckError("too little of some kind: %s" % count)
    wrong = 0
    for kind in KINDS:
        c, r = next((cases[r["case"]], r) for r in rows if any(o["op"] == kind and any(wanted(o)) for o in cases[r["case"]]))
        x = json.loads(json.dumps(r))
        i = next(i for i, o in enumerate(c) if o["op"] == kind and any(wanted(o)))
        w = wanted(c[i])
        j = max(range(len(w)), key=lambda j: abs(w[j]))
        x["got"][i][j] *= 1.001
        wrong += any(o is c[i] for _, _, o in judge(c, x)[0])
    if wrong != len(KINDS):
        raise vf.CheckError("a corrupted recording was accepted")
    ctx.cov["corrupted_recordings_rejected"] = wrong


def cli(ctx, ops, binary):
    """gopf elast energy prints what the library gives, and the template it writes can be read back"""
    exe = ctx.build_cli()
    rows = ctx.run(binary, [], [[o] for o in ops], died="process ended in the elasticity package")
    done = 0
    for o, r in zip(ops, rows):
        half = [1e7] * 3
        half[o["axis"]] = o["w"] + 0.5
        m = o["misfit"]
        params = {"HalfA": half[0], "HalfB": half[1], "HalfC": half[2], "Misfit": [m[0], m[4], m[8], 2 * m[5], 2 * m[2], 2 * m[1]],
                  "MatPropMatrix": o["voigt"], "MatPropInc": o["voigtinc"] if o["inc"] else None, "DomainSize": o["N"], "ApplyPerturbation": o["pert"]}
        fn = os.path.join(ctx.work, "elast.json")
        # a scale that shows in the six decimals of the output
        vol = 4 * math.pi * half[0] * half[1] * half[2] / 3
        s = 1e4 * vol / o["N"] ** 2
        params["MatPropMatrix"] = [s * x for x in params["MatPropMatrix"]]
        if o["inc"]:
            params["MatPropInc"] = [s * x for x in params["MatPropInc"]]
        json.dump(params, open(fn, "w"))
        p = subprocess.run([exe, "elast", "energy", "-i", fn], cwd=ctx.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if not r["got"] or not r["got"][0] or r["got"][0][0] is None:
            continue  # the library gave no value: reported where the behaviours are judged
        want = r["got"][0][0] / o["den"] / 2 * 1e4
        x = re.search(r"inclusion: (\S+)", p.stdout)
        if p.returncode or not x or abs(float(x.group(1)) - want) > 1e-5 * max(1, abs(want)):
            ctx.violation("elast energy", "gopf elast energy printed %r instead of %g for %s" % (p.stdout, want, json.dumps(params)), params)
        done += 1
    fn = os.path.join(ctx.work, "template.json")
    p = subprocess.run([exe, "elast", "template", "-o", fn], cwd=ctx.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    try:
        t = json.load(open(fn))
        ok = len(t["Misfit"]) == 6 and len(t["MatPropMatrix"]) == 36 and len(t["MatPropInc"]) == 36 and t["DomainSize"] > 0 and min(t["HalfA"], t["HalfB"], t["HalfC"]) > 0
    except (OSError, ValueError, KeyError, TypeError):
        ok = False
    if not ok:
        ctx.violation("elast template", "gopf elast template did not write a usable input file: %s" % p.stdout, p.stdout)
    return done + 1
