"""C13 to C17: grids, transforms, iterators, symmetry and painting. Specification: Grid.tla."""
import itertools, json
from lib import vf

MC = """SPECIFICATION Spec
INVARIANTS Numbering ProductOrder Frequencies WrapIdempotent DistanceSymmetric
PROPERTY Increasing
CONSTANTS
  MaxSide2 = %d
  MaxSide3 = %d
"""
TRACE = "SPECIFICATION Spec\nPOSTCONDITION Consumed\n"


def shapes(m2, m3, lo=1):
    return [list(s) for s in itertools.product(range(lo, m2 + 1), repeat=2)] + \
           [list(s) for s in itertools.product(range(lo, m3 + 1), repeat=3)]


# long sides: frequencies close to zero and close to the half
LONG = [[64, 3], [3, 64], [101, 2], [2, 3, 70], [2, 101, 3], [99, 3, 2], [53, 31], [1, 128], [250, 1], [1, 1, 151]]


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def model(ctx):
    q = ctx.quick
    ctx.tlc("GridMC", MC % ((4, 3) if q else (6, 5)))


def validate(ctx, cases, chunk=None, describe=None):
    """Runs the cases in the real code and has TLC accept or reject every recording."""
    recs = ctx.run(ctx.build("grid"), [], cases, died="process ended")
    if ctx.viol and ctx.last_rc != 0:
        cases = cases[:len(recs)]
    if len(recs) != len(cases):
        raise vf.CheckError("harness returned %d of %d records" % (len(recs), len(cases)))
    chunk = chunk or len(recs)
    for a in range(0, len(recs), chunk):
        part = recs[a:a + chunk]
        want = {}
        for r in part:
            want[r["kind"]] = want.get(r["kind"], 0) + 1
        res = ctx.tlc("GridTrace", TRACE, files={"trace.ndjson": "\n".join(map(json.dumps, part)) + "\n",
                                                 "want.json": want}, workers=1, timeout=800)
        bad = sorted({p["line"] for t, p in res["printed"] if t == "REJECT"})
        wide = {p["line"] for t, p in res["printed"] if t == "REJECT" and p["wide"]}
        for line in bad:
            c, r = cases[a + line - 1], part[line - 1]
            key = describe(c) if describe else "%s %s" % (c["kind"], c.get("shape") or c.get("ints"))
            if line in wide:
                key = "wide box kernel, width=%d" % c["width"]
            why = r.get("msg") or json.dumps({k: v for k, v in r.items() if len(json.dumps(v)) < 300})
            ctx.violation(key, "specification rejects what the code did: %s" % why, {"case": c, "observed": r})
        ctx.traces(len(part))
    for r in recs[:1] + recs[-1:]:
        ctx.sample(json.dumps(r)[:700])
    selftest(ctx, recs)


def selftest(ctx, recs):
    """Binding demonstration: a corrupted recording must be rejected."""
    r = json.loads(json.dumps(next(x for x in recs if x["ok"])))
    field = {"numbering": "pos", "wrap": "wraps", "product": "seq", "fft": "conj", "iter": "unique", "miller": "n3",
             "octant": "seq", "voronoi": "data", "draw": "set", "affine": "to", "blur": "after"}[r["kind"]]
    v = r[field]
    if isinstance(v, int):
        r[field] = v + 1
    elif r["kind"] == "draw":
        r[field] = [x for x in range(prod(r["shape"])) if x not in v]
    elif v and isinstance(v[0], int):
        v[0] += 1
    elif v:
        v[0] = [x + 1 if isinstance(x, int) else [y + 1 for y in x] for x in v[0]]
    res = ctx.tlc("GridTrace", TRACE, files={"trace.ndjson": json.dumps(r) + "\n", "want.json": {r["kind"]: 1}},
                  workers=1)
    if not any(t == "REJECT" for t, _ in res["printed"]):
        raise vf.CheckError("a corrupted recording was accepted: " + json.dumps(r)[:500])
    ctx.cov["corrupted_recordings_rejected"] = ctx.cov.get("corrupted_recordings_rejected", 0) + 1


def c13(ctx):
    model(ctx)
    m2, m3 = (6, 4) if ctx.quick else (7, 6)
    sh = shapes(m2, m3)
    cases = [{"kind": "numbering", "shape": s} for s in sh + LONG]
    for s in sh:
        rows = [list(p) for p in itertools.product(*[range(-3 * n - 1, 3 * n + 2) for n in s])]
        cap = 60 if ctx.quick else 200
        keep = rows if len(rows) <= cap else ctx.rng.sample(rows, cap)
        keep += [[k * n for n in s] for k in (-3, -2, -1, 0, 1, 2)] + [[-1] * len(s), [-n - 1 for n in s]]
        cases.append({"kind": "wrap", "shape": s, "lists": keep})
    for d in range(1, 5):
        top = {1: 6, 2: 4, 3: 3, 4: 3 if not ctx.quick else 2}[d]
        for e in itertools.product(range(1, top + 1), repeat=d):
            cases.append({"kind": "product", "ints": list(e)})
    for e in ([3, 1, 2, 4], [1, 5, 1, 2], [4, 4, 1, 1]):
        cases.append({"kind": "product", "ints": e})
    validate(ctx, cases)


def c14(ctx):
    model(ctx)
    m2, m3 = (6, 4) if ctx.quick else (8, 5)
    sh = shapes(m2, m3)
    if ctx.quick:
        sh += [[5, 3, 2], [2, 5, 3], [3, 2, 5], [6, 2, 1], [1, 2, 6], [7, 4], [3, 8]]
    else:
        sh += [[6, 4, 3], [3, 6, 4], [4, 3, 6], [6, 1, 2], [2, 6, 5], [5, 2, 6], [9, 4], [4, 9]]
    validate(ctx, [{"kind": "fft", "shape": s} for s in sh + LONG])


def c15(ctx):
    model(ctx)
    m2, m3 = (8, 5) if ctx.quick else (10, 8)
    sh = shapes(m2, m3)
    if ctx.quick:
        sh += [[8, 6, 4], [4, 8, 6], [6, 4, 8], [7, 6, 5], [8, 3, 2]]
    validate(ctx, [{"kind": "iter", "shape": s} for s in sh + LONG])


def c16(ctx):
    model(ctx)
    r = 4 if ctx.quick else 6
    cases = [{"kind": "miller", "ints": list(m)} for m in itertools.product(range(-r, r + 1), repeat=3)]
    for d in range(1, 6):
        for k in range(4 if ctx.quick else 12):
            cases.append({"kind": "octant", "ints": [ctx.rng.randint(1, 9) * ctx.rng.choice([-1, 1]) for _ in range(d)]})
        cases.append({"kind": "octant", "ints": [0] + [ctx.rng.randint(1, 9) for _ in range(d - 1)]})
        cases.append({"kind": "octant", "ints": [k + 1 for k in range(d)]})
    validate(ctx, cases, describe=lambda c: "%s %s" % (c["kind"], c["ints"]))


def c17(ctx):
    model(ctx)
    rng, cases = ctx.rng, []
    nv, nd, nb = (60, 120, 40) if ctx.quick else (400, 900, 250)
    pool = shapes(6, 4, 2) + [[7, 3], [3, 8], [5, 2, 3], [2, 4, 6]]
    for i in range(nv):
        s = rng.choice(pool)
        k = rng.randint(1, 4)
        pts = [rng.randrange(prod(s)) for _ in range(k)]
        cases.append({"kind": "voronoi", "shape": s, "ints": pts})
    for s in LONG if ctx.quick else 3 * LONG:
        cases.append({"kind": "voronoi", "shape": s, "ints": [rng.randrange(prod(s)) for _ in range(rng.randint(2, 12))]})
    for s in ([6, 6], [5, 5], [4, 4, 4]):                          # ties: two or more symmetric points
        cases.append({"kind": "voronoi", "shape": s, "ints": [0, prod(s) - 1, prod(s) // 2]})
        cases.append({"kind": "voronoi", "shape": s, "ints": [prod(s) - 1, 0]})
    for i in range(12 if ctx.quick else 120):
        n = rng.choice([3, 4, 5, 6, 7, 8, 9, 11])
        cases.append({"kind": "ellipsoid", "value": n, "ints": [rng.randint(1, n) for _ in range(3)]})
    for i in range(nd):
        s = rng.choice(LONG[:7] if i % 15 == 0 else pool)
        d = len(s)
        ts, planar = [], True
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            op = rng.choice("TTTSXYZZ" if d == 3 else "TTTTSSZZXY")
            if op == "T":
                n = rng.choice([2, 3]) if d == 2 else 3
                v = [rng.randint(-2 * max(s), 2 * max(s) // 2) if k < d else rng.choice([0, 1, -2, 3]) for k in range(n)]
                planar = planar and (n == 2 or v[2] == 0)
            elif op == "S":
                n = rng.choice([2, 3]) if d == 2 and planar else 3
                v = [rng.choice([1, 2, 3, 4, -2, -1]) for k in range(n)]
            else:
                v = [rng.randint(1, 3)]
                planar = planar and op == "Z"
            ts.append({"op": op, "v": v})
        if rng.random() < 0.5:
            c = {"name": "box", "ints": [rng.randint(1, 8 * (4 if max(s) < 9 else 70)) for _ in range(d if rng.random() < 0.6 else 3)]}
            if rng.random() < 0.4:
                c["ints"] = [x - x % 8 + 8 for x in c["ints"]]   # boundary through nodes
        else:
            c = {"name": "ball", "ints": [rng.randint(1, 16 * 16)]}
            if rng.random() < 0.4:
                c["ints"] = [16 * rng.randint(1, 5) ** 2]
        c.update(kind="draw", shape=s, trans=ts, value=rng.choice([-3, 7, 0]))
        cases.append(c)
    for i in range(60 if ctx.quick else 600):
        ts = []
        for _ in range(rng.randint(1, 5)):
            op = "XYZTS"[i % 5] if not ts else rng.choice("TTSXYZ")
            v = [rng.randint(-7, 7) for _ in range(rng.choice([2, 3]))] if op == "T" else [rng.choice([1, 2, 3, -2, -1, 0]) for _ in range(3)] if op == "S" else [rng.randint(-3, 3)]
            ts.append({"op": op, "v": v})
        cases.append({"kind": "affine", "trans": ts, "ints": [rng.randint(-9, 9) for _ in range(12)]})
    bp = [s for s in pool if prod(s) <= 36]
    for i in range(nb):
        s = rng.choice(bp)
        c = {"kind": "blur", "shape": s, "ints": [rng.randint(-9, 9) for _ in range(prod(s))]}
        if i % 2 == 0:
            c["width"] = rng.choice([0, 1, 2, 3, 4, 5] if len(s) == 2 else [0, 1, 2, 3])
        else:
            cut = rng.choice([1, 2]) if len(s) == 2 else 1
            c["cutoff"] = cut
            c["kernel"] = [rng.randint(0, 3) for _ in range((2 * cut + 1) ** len(s))]
            c["kernel"][0] += 1
        cases.append(c)

    def describe(c):
        if c["kind"] == "blur":
            return "blur %s %s" % ("box width=%d" % c["width"] if "kernel" not in c else "custom", c["shape"])
        if c["kind"] == "draw":
            return "draw %s %s %s %s" % (c["name"], c["shape"], c["ints"], "".join(t["op"] for t in c["trans"]))
        if c["kind"] == "affine":
            return "affine %s" % "".join(t["op"] for t in c["trans"])
        return "%s %s %s" % (c["kind"], c.get("shape") or c["value"], c["ints"])
    validate(ctx, cases, describe=describe)
