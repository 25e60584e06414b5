"""C11: the database commands of the command line. Specifications: FieldDB, CliView."""
import base64, csv, io, json, math, os, re
from lib import vf
from checks.db import behaviours

MC = """SPECIFICATION Spec
INVARIANTS OrderTotal Complete TableAgrees
PROPERTY OnlyOwn
VIEW View
CONSTANTS
  Handles = {1, 2}
  MaxOps = %d
"""
TRACE = "SPECIFICATION Spec\nPOSTCONDITION Consumed\n"
STORES = ("save", "comment", "attr", "text", "series")
DATES = {1: "2019-12-31 23:59:59", 2: "2020-01-01 00:00:00", 3: "2020-01-01 00:00:01"}


class Unreadable(Exception):
    pass


def whole(s):
    """The tables are wrapped at a number of bytes, which may lie in the middle of a character: whole again once the lines are joined."""
    return s.encode("utf-8", "surrogateescape").decode("utf-8", "replace")


def value(tok, node):
    """lib.FieldVal"""
    if tok == 2:
        s = {0: math.nan, 1: math.inf, 2: -math.inf, 3: 1.7976931348623157e308, 4: 5e-324}
        return s[node] if node in s else -1e-300 * node
    if tok == 3:
        return node - 1.0
    return tok * 1000 + node / 3.0 - 17.25


def near(text, v):
    try:
        x = float(text)
    except ValueError:
        return False
    if math.isnan(v):
        return math.isnan(x)
    if math.isinf(v):
        return x == v
    return abs(x - v) <= 5.1e-7 + 1e-15 * abs(v)


class Reader:
    def __init__(self, words, ids, shape):
        self.w, self.shape = words, shape
        self.sim = {v: int(k) for k, v in ids.items()}

    def h(self, s):
        return self.sim.get(int(s), 0 if int(s) == 0 or int(s) == 987654321 else -1)

    def key(self, s):
        return self.w["keys"].index(s) if s in self.w["keys"][1:] else -1

    def num(self, s):
        for t in range(1, 10):
            if near(s, self.w["attrs"][t]):
                return t
        return -1

    def text(self, s, squeeze=False):
        f = (lambda x: re.sub(r"\s", "", x)) if squeeze else (lambda x: x.replace("\n", " "))
        for i, t in enumerate(self.w["texts"]):
            if i and t and f(t) == f(s):
                return i
        return -1

    def cell(self, s):
        if s == "":
            return ["", 0]
        t = self.text(s)
        return ["text", t] if t > 0 else ["num", self.num(s)]

    def rows(self, out):
        return [[c.strip() for c in l.strip()[1:-1].split("|")] for l in out.splitlines() if l.strip().startswith("|") and l.strip().endswith("|")]

    def date(self, s):
        return next((k for k, v in DATES.items() if v == s.strip()), -1)

    def fields(self, files):
        out = []
        for name, content in sorted(files.items()):
            m = re.fullmatch(r"export(\d*)(?:\.csv)?", name)
            if not m:
                raise Unreadable("file " + name)
            rows = list(csv.reader(io.StringIO(content)))
            if rows[0][:3] != ["X", "Y", "Z"]:
                raise Unreadable("header %s" % rows[0])
            n = 1
            for s in self.shape:
                n *= s
            good = len(rows) == n + 1
            for i, r in enumerate(rows[1:]):
                a = self.shape
                p = [i // a[1], i % a[1], 0] if len(a) == 2 else [(i // a[1]) % a[0], i % a[1], i // (a[0] * a[1])]
                good = good and [int(x) for x in r[:3]] == p
            cols = []
            for j, name in enumerate(rows[0][3:]):
                tok = next((t for t in range(1, 7) if all(near(r[3 + j], value(t, i)) for i, r in enumerate(rows[1:]))), -1)
                cols.append([self.w["names"].index(name) if name in self.w["names"][1:] else -1, tok])
            out.append({"step": int(m.group(1)) if m.group(1) else None, "positions": good, "cols": cols})
        return out

    def read(self, q, out, files):
        k = q["kind"]
        if k == "ids":
            rs = self.rows(out)[1:]
            return {"rows": [[self.h(a), self.date(b)] for a, b in rs]}
        if k in ("comments", "comment"):
            rows = []
            for l in out.splitlines():
                m = re.fullmatch(r"Sim [iI]d (\d+):", l)
                if m:
                    rows.append({"sim": self.h(m.group(1)), "texts": []})
                elif l.strip() and rows:
                    rows[-1]["texts"].append(self.text(l))
            return {"rows": rows} if k == "comments" else (dict(rows[0]) if len(rows) == 1 else {"sim": -1, "texts": []})
        if k == "allcomments":
            acc = []
            for r in self.rows(out)[1:]:
                if r[0]:
                    acc.append([self.h(r[0]), r[1]])
                else:
                    acc[-1][1] += r[1]
            return {"rows": [[a, self.text(whole(b), True)] for a, b in acc]}
        if k == "replace":
            return {"done": "success" in out}
        if k == "attrs":
            header, rows, order = [], {}, []
            cols = []
            for r in self.rows(out):
                if not re.fullmatch(r"\d+", r[0]):
                    cols = [self.key(x) for x in r[1:]]
                    header += cols
                    continue
                s = self.h(r[0])
                if s not in rows:
                    rows[s] = {}
                for c, v in zip(cols, r[1:]):
                    if c in rows[s]:
                        raise Unreadable("two cells for one key")
                    rows[s][c] = self.cell(v)
            return {"header": header, "rows": [{"sim": s, "cells": [c.get(x, ["missing", 0]) for x in header]} for s, c in rows.items()]}
        if k == "attr":
            rows = []
            for l in out.splitlines():
                m = re.fullmatch(r"Sim id (\d+)\s+(.*?) =(.*)", l)
                if not m or m.group(2).strip() != self.w["keys"][q["key"]]:
                    raise Unreadable(l)
                c = self.cell(m.group(3).strip())
                rows.append([self.h(m.group(1))] + c)
            return {"rows": rows}
        if k == "unique":
            return {"keys": [self.key(x) for x in out.splitlines()[1:]]}
        if k == "time":
            m = re.fullmatch(r"Simulation (\d+) was created at(.*)\n?", out)
            if not m:
                raise Unreadable(out)
            return {"sim": self.h(m.group(1)), "time": self.date(m.group(2)) if m.group(2).strip() else 0}
        if k == "info":
            acc = []
            for r in self.rows(out)[1:]:
                if r[0]:
                    acc.append([r[0], r[1]])
                else:
                    acc[-1][1] += r[1]
            d = {a: whole(b) for a, b in acc}

            def find(list_, s):
                # names may hold commas and spaces: match the longest of the known ones
                s, found = re.sub(r"\s", "", s), []
                known = sorted([(re.sub(r"\s", "", x), i) for i, x in enumerate(list_) if i], key=lambda x: -len(x[0]))
                while s:
                    x, i = next(((x, i) for x, i in known if s == x or s.startswith(x + ",")), (None, 0))
                    if x is None:
                        return [-1]
                    found.append(i)
                    s = s[len(x):].lstrip(",")
                return found
            return {"num": int(d["Num calc."]), "dims": [int(x) for x in re.findall(r"\d+", d["Dims"])],
                    "fields": find(self.w["names"], d["Fields"]), "attrs": find(self.w["keys"], d["Attributes"]),
                    "series": find(self.w["keys"], d["Timeseries"])}
        if k == "series":
            rows = list(csv.reader(io.StringIO(next(iter(files.values())))))
            return {"header": [self.key(x) for x in rows[0][1:]],
                    "rows": [{"step": int(r[0]), "cells": [0 if x == "" else self.num(x) for x in r[1:]]} for r in rows[1:]]}
        if k == "field":
            return {"files": [dict(f, step=q["expect"]) for f in self.fields(files)]}
        if k == "allfields":
            return {"files": self.fields(files)}


def commands(ops, rng):
    handles = sorted({o["h"] for o in ops})
    steps = {h: sorted({o["step"] for o in ops if o["h"] == h and o["op"] == "save"}) for h in handles}
    keys = sorted({p[0] for o in ops if o["op"] in ("attr", "text") for p in o["pairs"]})
    out = []

    def add(kind, args, **kw):
        out.append(dict({"kind": kind, "sim": -1, "key": 0, "step": 0, "max": 20, "text": 0, "args": ["db"] + args}, **kw))

    def views():
        for m in (1, 2, 20):
            add("ids", ["list", "DB", "-m", str(m)] + [[], ["-c", "simid"], ["-c", "id"]][m % 3], max=m)
            add("comments", ["list", "DB", "-c", "comment", "-m", str(m)], max=m)
        add("allcomments", ["comment", "DB"])
        for h in handles:
            add("comment", ["comment", "DB", "-i", "@%d" % h], sim=h)
    views()
    for h in handles + [0]:
        add("attrs", ["attr", "DB", "-i", "@%d" % h if h else "0"], sim=h)
    add("attrs", ["attr", "DB"])
    add("attrs", ["attr", "DB", "-i", "987654321"], sim=0)
    for k in keys[:4] + keys[-1:]:
        add("attr", ["attr", "DB", "-n", "%%%d" % k], key=k)
        for h in handles[:2]:
            add("attr", ["attr", "DB", "--name", "%%%d" % k, "--simid", "@%d" % h], key=k, sim=h)
    add("unique", ["attr", "DB", "-u"])
    add("time", ["time", "DB"])
    for h in handles:
        add("time", ["time", "DB", "-i", "@%d" % h], sim=h)
    add("info", ["info", "DB"])
    add("series", ["export", "DB", "-o", "export.csv"])
    for h in handles:
        add("series", ["export", "DB", "-t", rng.choice(["ts", "timeseries"]), "-o", "export.csv", "-i", "@%d" % h], sim=h)
        for s in steps[h] + [5, -1]:
            add("field", ["export", "DB", "-t", rng.choice(["field", "fd", "fieldData", "fielddata"]), "-o", "export.csv", "-i", "@%d" % h, "-s", str(s)], sim=h, step=s)
        add("allfields", ["export", "DB", "-t", "field", "-a", "-o", "export", "-i", "@%d" % h], sim=h)
    add("field", ["export", "DB", "-t", "field", "-o", "export.csv", "-s", "-1"], step=-1)
    for h in handles[:2]:
        t = rng.choice([1, 2, 5, 6, 8])
        add("replace", ["comment", "DB", "-i", "@%d" % h, "-n", "#%d" % t], sim=h, text=t)
    views()
    return out


def crowded(rng):
    """A database with more simulations than a list shows, and more comments, attributes and time series entries than fit one screen."""
    n = rng.choice([21, 23, 26])
    ops, base = [], {"shape": [2, 2], "step": 0, "text": 0, "sim": 0, "pairs": []}
    for h in range(1, n + 1):
        ops.append(dict(base, op="comment", h=h, text=rng.choice([1, 2, 5, 6, 8])))
    chatty = rng.randint(1, n)
    for _ in range(rng.choice([4, 6, 12])):
        ops.append(dict(base, op="comment", h=chatty, text=rng.choice([1, 2, 5, 6, 8])))
    for h in rng.sample(range(1, n + 1), n - 3):
        ops.append(dict(base, op="attr", h=h, pairs=[[k, rng.randint(1, 3)] for k in rng.sample(range(7, 19), rng.choice([1, 2, 11]))]))
    for t in range(rng.choice([12, 30, 105])):
        ops.append(dict(base, op="series", h=chatty, step=t, pairs=[[1 + t % 2, 1 + t % 3]]))
    cmds = []

    def add(kind, args, **kw):
        cmds.append(dict({"kind": kind, "sim": -1, "key": 0, "step": 0, "max": 20, "text": 0, "args": ["db"] + args}, **kw))
    add("ids", ["list", "DB"])
    add("comments", ["list", "DB", "-c", "comment"])
    for m in (n - 1, n, 100):
        add("ids", ["list", "DB", "-m", str(m)], max=m)
        add("comments", ["list", "DB", "-c", "comment", "--max", str(m)], max=m)
    add("allcomments", ["comment", "DB"])
    add("comment", ["comment", "DB", "-i", "@%d" % chatty], sim=chatty)
    add("attrs", ["attr", "DB"])
    add("attr", ["attr", "DB", "-n", "%8"], key=8)
    add("unique", ["attr", "DB", "-u"])
    add("time", ["time", "DB"])
    add("info", ["info", "DB"])
    add("series", ["export", "DB", "-o", "export.csv", "-i", "@%d" % chatty], sim=chatty)
    add("replace", ["comment", "DB", "-i", "@%d" % chatty, "-n", "#2"], sim=chatty, text=2)
    add("comment", ["comment", "DB", "-i", "@%d" % chatty], sim=chatty)
    rank = [rng.choice([1, 2, 3]) for _ in range(n)]
    return {"ops": ops, "share": False, "times": {str(i + 1): DATES[t] for i, t in enumerate(rank)}, "cmds": cmds, "rank": rank}


def judge(ctx, recs):
    res = ctx.tlc("CliTrace", TRACE, files={"trace.ndjson": "\n".join(map(json.dumps, recs)) + "\n"}, workers=1, timeout=800)
    return [p for t, p in res["printed"] if t == "REJECT"], sum(t == "UNUSABLE" for t, _ in res["printed"])


def c11(ctx):
    ctx.tlc("CliMC", MC % (3 if ctx.quick else 4), timeout=800)
    bs = behaviours(ctx, 40 if ctx.quick else 300, 14)
    cases = []
    for i, b in enumerate(bs):
        ops = [dict(o) for o in b["ops"] if o["op"] in STORES]
        shapes = {}
        for o in ops:
            if o["op"] == "comment":
                o["text"] = ctx.rng.choice([1, 2, 3, 5, 6, 7, 8, 9])
            if o["op"] == "text":
                o["pairs"] = [[k, {3: 1}.get(t, t)] for k, t in o["pairs"]]
        many = ctx.rng.choice([0, 0, 0, 4, 9, 10, 11, 15, 20, 21, 26])
        if many:
            ops.append({"op": "attr", "h": ops[0]["h"], "shape": ops[0]["shape"], "step": 0, "text": 0, "sim": 0, "pairs": [[7 + j, 1 + j % 3] for j in range(many)]})
        if not ops:
            continue
        hs = sorted({o["h"] for o in ops})
        times = {h: ctx.rng.choice([1, 2, 3]) for h in (1, 2, 3)}
        cases.append({"ops": ops, "share": i % 3 == 0, "times": {str(h): DATES[t] for h, t in times.items()}, "cmds": commands(ops, ctx.rng),
                      "rank": [times[1], times[2], times[3]]})
    for _ in range(2 if ctx.quick else 8):
        cases.append(crowded(ctx.rng))
    os.environ["VERIF_CLI"] = ctx.build_cli()
    raw = ctx.run(ctx.build("cli"), [], cases, timeout=800, died="process ended while a database was filled")
    words, recs, last = raw[0], [], None
    ncmd = {}
    for r in raw[1:]:
        c = cases[r["case"]]
        if r["ev"] == "reset":
            recs.append(dict(r, times=c["rank"]))
            dom = None
        elif r["ev"] == "op":
            recs.append({k: r[k] for k in ("ev", "case", "args")})
            if dom is None and r["args"]["op"] == "save":
                dom = r["args"]["shape"]
        else:
            if last is not c:
                recs.append({"ev": "start", "case": r["case"], "obs": r["obs"]})
                last = c
            q = dict(r["cmd"])
            kind = q["kind"]
            ncmd[kind] = ncmd.get(kind, 0) + 1
            if kind == "field":
                sim = q["sim"] if q["sim"] > 0 else newest(c, r["obs"])
                ss = [f[1] for f in r["obs"]["fields"] if f[0] == sim]
                q["expect"] = q["step"] if q["step"] >= 0 else (max(ss) if ss else -1)
            try:
                if r["code"] != 0:
                    raise Unreadable("exit status %d: %s" % (r["code"], r["err"][:400]))
                facts = dict(Reader(words, r["ids"], dom or [1, 1]).read(q, base64.b64decode(r["b64"]).decode("utf-8", "surrogateescape"), r["files"]), bad=False)
            except (Unreadable, ValueError, IndexError, KeyError, StopIteration, TypeError) as e:
                facts = {"bad": True, "why": repr(e)}
            r["obs"]["joined"] = []
            recs.append({"ev": "cmd", "case": r["case"], "cmd": {k: v for k, v in q.items() if k not in ("args", "expect")}, "facts": facts, "obs": r["obs"],
                         "raw": {"args": q["args"], "out": r["out"][:1500], "err": r["err"][:300], "files": {k: v[:600] for k, v in r["files"].items()}}})
    slim = [{k: v for k, v in r.items() if k != "raw"} for r in recs]
    bad, unusable = judge(ctx, slim)
    for p in bad:
        r = recs[p["line"] - 1]
        ctx.violation("cli %s %s" % (r["cmd"]["kind"], p["what"]), "gopf %s (simulations by creation time %s): %s; the database holds %s; output %s" % (
            " ".join(r["raw"]["args"]), cases[r["case"]]["rank"], json.dumps(r["facts"]), json.dumps(p["st"]), json.dumps(r["raw"])), {"case": cases[r["case"]], "record": r, "state": p["st"]})
    ctx.cov.update(commands=ncmd, databases=len(cases), databases_unusable=unusable)
    ctx.traces(sum(ncmd.values()))
    ctx.sample(json.dumps({"ops": cases[0]["ops"][:4], "cmds": [q["args"] for q in cases[0]["cmds"]][:12]}))
    if ctx.viol:
        return
    if unusable > len(cases) // 2:
        raise vf.CheckError("the database itself does not hold what was stored (see C09)")
    wrong = 0
    for kind, edit in (("ids", lambda f: f["rows"].reverse()), ("attrs", lambda f: f["header"].pop()), ("field", lambda f: f["files"][0]["cols"].pop()),
                       ("comment", lambda f: f["texts"].append(1)), ("series", lambda f: f["rows"].pop())):
        for k, r in enumerate(slim):
            f = r.get("facts", {})
            if r["ev"] == "cmd" and r["cmd"]["kind"] == kind and (len(f.get("rows", [1, 2])) > 1) and f.get("files", [1]) and f.get("header", [1]) and f.get("texts", [1]):
                break
        else:
            raise vf.CheckError("nothing to corrupt for " + kind)
        s = max(i for i in range(k) if slim[i]["ev"] == "reset")
        x = json.loads(json.dumps(slim[s:k + 1]))
        edit(x[-1]["facts"])
        wrong += bool(judge(ctx, x)[0])
    if wrong != 5:
        raise vf.CheckError("a corrupted recording was accepted")
    ctx.cov["corrupted_recordings_rejected"] = wrong


def newest(c, obs):
    ids = obs["ids"]
    return max(ids, key=lambda h: (c["rank"][h - 1], ids.index(h))) if ids else -1
