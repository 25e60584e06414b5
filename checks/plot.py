"""C26: what the command line program draws of a table. Specification: Plot.tla."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from lib import vf

MC = """SPECIFICATION Spec
INVARIANTS Sound EveryRowOnce LineMeetsPicture OrderFree
CONSTANTS
  Gen = FALSE
  MaxOps = 0
"""
GEN = """SPECIFICATION Spec
INVARIANT Emit
CONSTANTS
  Gen = TRUE
  MaxOps = %d
"""


def write(tab, fn, style):
    """The table as text: as exported, or with the blanks of the format the help describes."""
    sep = ", " if style % 3 == 1 else ","
    num = [lambda v: "%d" % v, lambda v: "%.6f" % v, lambda v: repr(float(v)), lambda v: "%e" % v][style % 4]
    with open(fn, "w") as f:
        f.write(sep.join(["X", "Y", "Z"] + tab["names"]) + "\n")
        for r in tab["rows"]:
            f.write(sep.join([str(x) for x in r["p"]] + [num(v) for v in r["v"]]) + "\n")


TOKEN = re.compile(r'<path d="([^"]*)" style="([^"]*)"|<text x="[^"]*" y="[^"]*"[^>]*?font-size:([\d.]+)px[^>]*>([^<]*)<|(rotate\(90\))', re.S)


def curves(svg):
    """[(name, [(x, y), ...])] in data coordinates, by the marks of the axes and the legend"""
    paths, texts, group = [], ([], []), 0
    seq = []
    for d, style, size, text, rot in TOKEN.findall(svg):
        if rot:
            group = 1
        elif d:
            pts = [tuple(map(float, p.split(","))) for p in re.findall(r"-?[\d.]+(?:e-?\d+)?,-?[\d.]+(?:e-?\d+)?", d)]
            col = re.search(r"stroke:(#\w+)", style)
            if col and "fill:none" in style:
                seq.append(("path", col.group(1), pts))
        else:
            try:
                texts[group].append(float(text.replace("\u2212", "-")))
                seq.append(("num", text, None))
            except ValueError:
                seq.append(("text", text, None))
    ticks = [[], []]
    for kind, col, pts in seq:
        if kind == "path" and col == "#000000" and len(pts) == 2:
            dx, dy = abs(pts[0][0] - pts[1][0]), abs(pts[0][1] - pts[1][1])
            if dx < 1e-9 and 0 < dy < 20:
                ticks[0].append((round(dy, 2), pts[0][0]))
            elif dy < 1e-9 and 0 < dx < 20:
                ticks[1].append((round(dx, 2), pts[0][1]))
    scale = []
    for k in (0, 1):
        longest = max([t[0] for t in ticks[k]], default=0)
        major, labels = sorted(t[1] for t in ticks[k] if t[0] > longest - 0.5), sorted(texts[k])
        if len(major) != len(labels) or len(major) < 2:
            return None
        a = (labels[-1] - labels[0]) / (major[-1] - major[0])
        scale.append((a, labels[0] - a * major[0]))
    data, names = {}, []
    for i, (kind, col, pts) in enumerate(seq):
        if kind == "path" and col != "#000000":
            if i + 1 < len(seq) and seq[i + 1][0] != "path":
                names.append((seq[i + 1][1], col))
            else:
                data.setdefault(col, []).append([(scale[0][0] * x + scale[0][1], scale[1][0] * y + scale[1][1]) for x, y in pts])
    # colours come round again when there are many fields: their curves are in the order of the legend
    share = {c: len(data.get(c, [])) // sum(x == c for _, x in names) for _, c in names}
    if any(share[c] * sum(x == c for _, x in names) != len(data.get(c, [])) for c in share):
        share = {c: len(data.get(c, [])) for c in share}
    out, used = [], {}
    for n, c in names:
        k = used.get(c, 0)
        out.append((n, data.get(c, [])[k:k + share[c]]))
        used[c] = k + share[c]
    return out


def line(o, svg):
    """None, or what is wrong with the curves"""
    got = curves(svg)
    if got is None:
        return "the axes cannot be read"
    if [n for n, _ in got] != o["names"]:
        return "curves %s instead of %s" % ([n for n, _ in got], o["names"])
    for (n, pts), want in zip(got, o["want"]):
        if len(want) == 1 and not pts:
            continue                        # a single point makes no curve
        if len(pts) != 1:
            return "%s: %d curves" % (n, len(pts))
        p = pts[0]
        if not o["orderly"]:
            p = sorted(p)
        elif len(p) > 1 and p[0][0] > p[-1][0]:
            p = p[::-1]
        if len(p) != len(want) or any(abs(a - c) > 0.03 or abs(b - d) > 0.03 for (a, b), (c, d) in zip(p, want)):
            return "%s: the curve goes through %s instead of %s" % (n, [(round(a, 2), round(b, 2)) for a, b in p], want)
    return None


def plane(o, r):
    if r["msg"]:
        return r["msg"]
    want = [v for col in o["want"] for v in col]
    got = [v for col in r["at"] for v in col]
    lo, hi = want.index(min(want)), want.index(max(want))
    nx, ny = len(o["want"]), len(o["want"][0])
    if max(nx, ny) > 40:
        # a cell is only some pixels wide, and may blend with the cells around it
        mw, mg = sum(want) / len(want), sum(got) / len(got)
        cov, var = sum((w - mw) * (g - mg) for w, g in zip(want, got)), sum((g - mg) ** 2 for g in got)
        if cov <= 0:
            return "high values are drawn low"

        def around(k):
            return [o["want"][i][j] for i in range(max(0, k // ny - 1), min(nx, k // ny + 2)) for j in range(max(0, k % ny - 1), min(ny, k % ny + 2))]
        far = [k for k in range(len(want)) if not min(around(k)) - 2.5 < mw + cov / var * (got[k] - mg) < max(around(k)) + 2.5]
        return "the plane of %dx%d shows something else at %s" % (nx, ny, [(k // ny, k % ny) for k in far[:9]]) if far else None
    if got[hi] <= got[lo]:
        return "the highest value is drawn below the lowest"
    a = (want[hi] - want[lo]) / (got[hi] - got[lo])
    off = [k for k in range(len(want)) if abs(want[lo] + a * (got[k] - got[lo]) - want[k]) > (0.4 if max(nx, ny) < 10 else 0.7)]
    if off:
        return "the plane shows %s" % ", ".join("%.2f instead of %d at (%d,%d)" % (want[lo] + a * (got[k] - got[lo]), want[k], k // ny, k % ny) for k in off[:5])
    if r["off"] > 12:
        return "a colour (%.1f away) that is not on the colour bar" % r["off"]
    return None


def c26(ctx):
    ctx.tlc("PlotMC", MC, timeout=800)
    num, ops = (90, 6) if ctx.quick else (900, 10)
    res = ctx.tlc("PlotMC", GEN % ops, simulate=num, depth=ops + 3, workers=1, timeout=800)
    cases = []
    for t, p in res["printed"]:
        if t == "P" and p not in cases:
            cases.append(p)
    cases = cases[:60 if ctx.quick else 700]
    exe = ctx.build_cli()
    jobs = []
    for k, c in enumerate(cases):
        fn = os.path.join(ctx.work, "t%d.csv" % k)
        write(c["tab"], fn, ctx.rng.randrange(12))
        for i, o in enumerate(c["ops"]):
            if o["op"] == "plane" and len({v for col in o["want"] for v in col}) < 2:
                continue                    # a field that is the same everywhere has no colour scale
            jobs.append((k, i, o, fn, os.path.join(ctx.work, "p%d_%d.%s" % (k, i, "png" if o["op"] == "plane" else "svg"))))

    def draw(j):
        k, i, o, fn, out = j
        cmd = [exe, "contour" if o["op"] == "plane" else "lineplot", "-f", fn, "-o", out]
        if o["op"] == "plane":
            cmd += ["-c", o["name"]] if o["name"] else []
        else:
            cmd += ["-d", ",".join(o["list"])] if o["list"] else []
            for f, v in zip("xyz", o["q"]):
                cmd += ["-" + f, str(v)] if v >= 0 else []
        return subprocess.run(cmd, cwd=ctx.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)

    with ThreadPoolExecutor(8) as pool:
        runs = list(pool.map(draw, jobs))
    pics = [(n, j) for n, j in enumerate(jobs) if j[2]["op"] == "plane" and runs[n].returncode == 0]
    rows = ctx.run(ctx.build("plot"), [], [{"png": j[4], "nx": len(j[2]["want"]), "ny": len(j[2]["want"][0])} for _, j in pics], timeout=700)
    shown = {pics[r["case"]][0]: r for r in rows}
    count, svgs = {}, {}
    for n, (k, i, o, fn, out) in enumerate(jobs):
        count[o["op"]] = count.get(o["op"], 0) + 1
        p, bad = runs[n], None
        if o["op"] == "refuse":
            if p.returncode == 0 or os.path.exists(out):
                bad = "drew a line although the coordinates given do not make one: %s" % p.stdout[-200:]
        elif p.returncode or not os.path.exists(out):
            bad = "nothing drawn: %s" % p.stdout[-300:]
        elif o["op"] == "line":
            svgs[n] = open(out, errors="replace").read()
            bad = line(o, svgs[n])
        else:
            bad = plane(o, shown[n])
        if bad:
            ctx.violation("%s %s" % (o["op"], cases[k]["tab"]["dims"]), "%s: %s" % (json.dumps({x: o[x] for x in o if x != "want"}), bad), {"table": open(fn).read(), "operation": o, "output": p.stdout[-2000:]})
    ctx.traces(len(jobs))
    ctx.cov["pictures"] = count
    ctx.sample(json.dumps(cases[0])[:900])
    if ctx.viol:
        return
    if min(count.get(x, 0) for x in ("line", "plane", "refuse")) < 10:
        raise vf.CheckError("too few pictures of some kind: %s" % count)
    # a wrong value, a wrong place and a wrong curve must be rejected
    wrong = []
    n = next(n for n in svgs if len(jobs[n][2]["want"][0]) > 2 and len(jobs[n][2]["want"]) > 1)
    for spoil in (lambda o: o["want"][0][1].__setitem__(1, o["want"][0][1][1] + 1), lambda o: o["want"][1].pop(), lambda o: o["names"].reverse()):
        o = json.loads(json.dumps(jobs[n][2]))
        spoil(o)
        wrong.append(line(o, svgs[n]) is not None)
    n, j = next(x for x in pics if min(len(x[1][2]["want"]), len(x[1][2]["want"][0])) > 1 and max(len(x[1][2]["want"]), len(x[1][2]["want"][0])) <= 40)
    for spoil in (lambda w: w[0].__setitem__(0, w[0][0] + (1 if w[0][0] < 5 else -1)), lambda w: w.reverse(), lambda w: [c.reverse() for c in w]):
        o = json.loads(json.dumps(j[2]))
        spoil(o["want"])
        wrong.append(o["want"] == j[2]["want"] or plane(o, shown[n]) is not None)
    if not all(wrong):
        raise vf.CheckError("a corrupted picture was accepted: %s" % wrong)
    ctx.cov["corrupted_pictures_rejected"] = len(wrong)
