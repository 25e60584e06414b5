"""C27: putting a model together. Specifications: Setup.tla, Fits.tla."""
import copy, json, os
from lib import vf

MC = "SPECIFICATION Spec\nINVARIANTS Distinct Apart Sound FlawStays Split\nPROPERTY Keeps\nVIEW View\nCONSTANTS\n Gen = FALSE\n MaxActs = %d\n"
GEN = "SPECIFICATION Spec\nINVARIANTS Emit Distinct Apart Sound Split\nCONSTANTS\n Gen = TRUE\n MaxActs = %d\n"
FIT = "SPECIFICATION Spec\nINVARIANTS Matters Emit\n"
NAMES = ["a", "b", "ab", "k", "kk", "F", "G", "D", "E", "T", "P", "U", "V", "W"]
FIELDS = ["a", "b", "ab"]


def asdict(x):
    return x if isinstance(x, dict) else {}


def answers(act, seen):
    """what has to be answered after a step; seen: step at which each derived value was added"""
    q = act["q"]
    terms, fv, sv = asdict(q["terms"]), asdict(q["fvals"]), asdict(q["svals"])
    ders = [n for n in q["all"] if n not in fv]
    known = set(q["vars"])
    out = {"all": q["all"], "vars": sorted(known), "nodes": q["nodes"], "eqno": q["eqno"], "is": {}, "vals": {}}
    for n in ["", "nothing", "aa"] + NAMES:
        k = terms.get(n)
        out["is"][n] = [n in fv or n in ders, n in known, k == "implicit", k == "explicit", k == "mixed", k is not None]
    out["vals"] = dict({n: v for n, v in fv.items()}, **sv)
    return out


def compare(h, row):
    """the first disagreement of a history with what the code did"""
    flawless = True
    seen = {}
    for i, a in enumerate(h):
        if a["act"] == "eq":
            flawless = flawless and not a["flaw"]
        if i >= len(row["ok"]):
            return None                   # it was refused before, which is judged below
        ok = row["ok"][i]
        if a["act"] == "solver":
            if ok != a["ok"]:
                return "the model was %s on %s: %s" % ("accepted" if ok else "refused", a["domain"], row["msg"])
            if not ok:
                return None
            if row["copies"]:
                return row["copies"]
            names = [n for n in h[-2]["q"]["all"] if n not in asdict(h[-2]["q"]["fvals"])]
            got = {n: v for n, v in row["ders"].items() if "*" not in n and "^" not in n}
            if got != dict(zip(names, a["dvals"])):
                return "values of the functions and derived fields %s instead of %s" % (got, dict(zip(names, a["dvals"])))
            want = [[str(j), row["text"][j].replace(" ", ""), str(s["ne"]), str(s["ni"])] for j, s in enumerate(a["summary"])]
            if "ab" in asdict(h[-2]["q"]["fvals"]) and len(asdict(h[-2]["q"]["fvals"])) > 1:
                # a field whose name contains that of another one is treated explicitly (known finding of C02)
                for rs in (row["summary"], row["again"], want):
                    rs[:] = [r[:2] + [str(int(r[2]) + int(r[3])), "0"] for r in rs]
            if row["summary"] != want or row["again"] != want:
                return "summary %s, then %s instead of %s" % (row["summary"], row["again"], want)
            if want and "not initialized" not in row["before"]:
                return "summary of a model that is not initialised: %s" % row["before"][:80]
            return None
        if a["act"] == "eq":
            if not ok:                    # a malformed equation may be refused right away
                return None if a["flaw"] else "equation %s was refused: %s" % (row["text"][-1], row["msg"])
        elif ok != a["ok"]:
            return "step %d (%s %s) was %s: %s" % (i, a["act"], a["n"], "accepted" if ok else "refused", row["msg"])
        want, got = answers(a, seen), row["q"][i]
        for key in ("all", "vars", "nodes"):
            if got[key] != want[key]:
                return "after step %d (%s): %s is %s, must be %s" % (i, a["act"], key, got[key], want[key])
        if flawless and got["eqno"] != want["eqno"]:
            return "after step %d: equation numbers %s, must be %s" % (i, got["eqno"], want["eqno"])
        for n in want["is"]:
            if got["is"][n] != want["is"][n]:
                return "after step %d (%s): field, brick, implicit, explicit, mixed, user defined of %s is %s, must be %s" % (i, a["act"], n, got["is"][n], want["is"][n])
        for n, v in want["vals"].items():
            if got["vals"].get(n) != v:
                return "after step %d: value of %s is %s, must be %s" % (i, n, got["vals"].get(n), v)
    return None


def c27(ctx):
    ctx.tlc("Setup", MC % (2 if ctx.quick else 3), timeout=600)
    hs = []
    for acts, num in ((9, 500), (14, 700), (18, 300)):
        res = ctx.tlc("Setup", GEN % acts, simulate=num if ctx.quick else num * 12, depth=acts + 2, workers=1, timeout=600)
        hs += [v for t, v in res["printed"] if t == "S"]
    res = ctx.tlc("Fits", FIT, workers=1)
    reqs = [v for t, v in res["printed"] if t == "R"]
    if len(reqs) < 250 or len(hs) < 800:
        raise vf.CheckError("only %d requests and %d histories" % (len(reqs), len(hs)))
    d = os.path.join(ctx.work, "setup_files")
    os.mkdir(d)
    rows = ctx.run(ctx.build("setup"), [], {"hist": hs, "fits": reqs, "names": NAMES, "dir": d}, died="process ended while a model was put together")
    count = {True: 0, False: 0}
    for r in rows:
        if r["kind"] == "hist":
            h = hs[r["case"]]
            count[h[-1]["ok"]] += 1
            msg = compare(h, r)
            if msg:
                ctx.violation("setup", "%s | %s | %s" % (msg, " ; ".join(r["text"]), json.dumps([[a["act"], a.get("n", a.get("lhs", ""))] for a in h])), {"history": h, "row": r})
        else:
            q = reqs[r["case"]]
            if r["verdict"] != q["verdict"] or r["wrong"]:
                ctx.violation("request " + q["op"], "%s was %s, must be %s (%s)" % (json.dumps(q), r["verdict"], q["verdict"], r["wrong"] or r["msg"]), q)
    if ctx.viol:
        return
    if len(rows) != len(hs) + len(reqs) or min(count.values()) < 100:
        raise vf.CheckError("%d answers, %s" % (len(rows), count))
    ctx.traces(len(rows))
    ctx.cov.update(histories=len(hs), accepted=count[True], refused=count[False], requests=len(reqs), requests_refused=sum(q["verdict"] == "refused" for q in reqs))
    selftest(hs, [r for r in rows if r["kind"] == "hist"])


def selftest(hs, rows):
    """every kind of wrong answer is noticed"""
    row = next(r for r in rows if hs[r["case"]][-1]["ok"] and "ab" not in hs[r["case"]][-2]["q"]["all"] and len(r["summary"]) > 1 and r["ders"])
    h = hs[row["case"]]

    def spoil(f):
        r = copy.deepcopy(row)
        f(r)
        if compare(h, r) is None:
            raise vf.CheckError("a wrong answer was accepted")
    last = len(row["q"]) - 1
    spoil(lambda r: r["q"][last]["all"].reverse() if len(r["q"][last]["all"]) > 1 else r["q"][last]["all"].append("x"))
    spoil(lambda r: r["q"][last]["vars"].pop())
    spoil(lambda r: r["q"][last]["is"]["aa"].__setitem__(0, True))
    spoil(lambda r: r["q"][last]["eqno"].__setitem__("a", 9))
    spoil(lambda r: r["summary"][0].__setitem__(2, "7"))
    spoil(lambda r: r["again"].append(r["again"][0]))
    spoil(lambda r: r["ok"].__setitem__(-1, False))
