"""Shared machinery of the checks: building the harness, running TLC, verdicts, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The check itself could not be carried out (exit 2, never a verdict)."""


def goenv():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", CGO_ENABLED="1", GOWORK="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOSUMDB="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []          # list of (key, description, replay data)
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self._built = {}
        self.quick = tier == "quick"

    # ------------------------------------------------------------------ Go
    def build(self, pkg):
        """Builds harness/cmd/<pkg> against /repo's working tree; returns the binary."""
        if pkg in self._built:
            return self._built[pkg]
        h = os.path.join(self.work, "harness")
        if not os.path.isdir(h):
            shutil.copytree(os.path.join(VERIF, "harness"), h)
            gm = open(os.path.join(REPO, "go.mod")).read()
            req = re.findall(r"^\s*(?:require\s+)?([\w./-]+\.[\w./-]+ v\S+)", gm, re.M)
            with open(os.path.join(h, "go.mod"), "w") as f:
                f.write("module verifharness\n\ngo 1.13\n\nrequire (\n\tgithub.com/davidkleiven/gopf v0.0.0\n")
                for r in req:
                    f.write("\t" + r + "\n")
                f.write(")\n\nreplace github.com/davidkleiven/gopf => %s\n" % REPO)
            shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(h, "go.sum"))
        out = os.path.join(self.work, "bin_" + pkg)
        self._go(["go", "build", "-o", out, "./cmd/" + pkg], h)
        self._built[pkg] = out
        return out

    def build_cli(self):
        """Builds the gopf command line program itself from a private view of the module."""
        out = os.path.join(self.work, "gopf_cli")
        if os.path.exists(out):
            return out
        mf = os.path.join(self.work, "cli.mod")
        shutil.copy(os.path.join(REPO, "go.mod"), mf)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(self.work, "cli.sum"))
        self._go(["go", "build", "-modfile", mf, "-o", out, "."], REPO)
        return out

    def _go(self, cmd, cwd):
        r = subprocess.run(cmd, cwd=cwd, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=600)
        if r.returncode != 0:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

    def run(self, binary, args, stdin_obj=None, timeout=300, allow_fail=False, died=None):
        """Runs a harness binary: JSON in (file in.json), JSON lines out (file given by -out)."""
        n = len([f for f in os.listdir(self.work) if f.startswith("io_")])
        d = os.path.join(self.work, "io_%d" % n)
        os.mkdir(d)
        inp, outp = os.path.join(d, "in.json"), os.path.join(d, "out.ndjson")
        with open(inp, "w") as f:
            json.dump(stdin_obj, f)
        env = dict(os.environ, VERIF_SEED=str(self.seed))
        try:
            r = subprocess.run([binary] + [str(a) for a in args] + ["-in", inp, "-out", outp], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            if died:
                self.violation(died, "the code did not come to an end within %d s (see the replay file)" % timeout, stdin_obj)
                r = None
            else:
                raise CheckError("harness timed out: %s %s" % (binary, args))
        rows = []
        if os.path.exists(outp):
            for line in open(outp):
                if line.endswith("\n"):
                    rows.append(json.loads(line))
        if r is None:
            return rows
        self.last_rc, self.last_err = r.returncode, r.stderr.decode(errors="replace")
        if r.returncode not in (0, 3) and died:      # 3: the harness itself could not work
            k = len(rows)
            what = stdin_obj[k] if isinstance(stdin_obj, list) and k < len(stdin_obj) else stdin_obj
            self.violation(died, "the process ended (exit %d) at case %d: %s | %s" % (
                r.returncode, k, r.stderr.decode(errors="replace")[-600:], json.dumps(what)[:600]), what)
            self.last_rc = r.returncode
            return rows
        if r.returncode != 0 and not allow_fail:
            raise CheckError("harness failed (%d): %s %s\n%s" % (r.returncode, binary, args,
                                                              r.stderr.decode(errors="replace")[-3000:]))
        self.last_rc = r.returncode
        return rows

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, files=None, simulate=None, depth=None, workers=4, timeout=300, consts=None,
            expect_error=False, mem="3g"):
        """Runs TLC on spec/<module>.tla. cfg: configuration text. files: extra files for the run directory.
        Returns dict(states, distinct, out, printed, error)."""
        n = len([f for f in os.listdir(self.work) if f.startswith("tlc_")])
        d = os.path.join(self.work, "tlc_%d_%s" % (n, module))
        os.mkdir(d)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        for name, content in (files or {}).items():
            with open(os.path.join(d, name), "w") as f:
                f.write(content if isinstance(content, str) else json.dumps(content))
        if cfg is None:
            cfg = open(os.path.join(VERIF, "spec", module + ".cfg")).read()
        if consts:
            cfg += "\nCONSTANTS\n" + "\n".join("  %s = %s" % kv for kv in consts.items()) + "\n"
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        cp = ":".join([TLAJAR] + sorted(
            os.path.join(os.path.dirname(TLAJAR), x) for x in os.listdir(os.path.dirname(TLAJAR))
            if x.endswith(".jar") and x != os.path.basename(TLAJAR)))
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "states"), "-config", "M.cfg", "-workers", str(workers), "-deadlock"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed * 7919 + 17)]
            if depth:
                cmd += ["-depth", str(depth)]
        else:
            cmd += ["-seed", str(self.seed * 7919 + 17), "-fp", "0"]
        cmd.append(module + ".tla")
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = r.stdout
        res = {"out": out, "dir": d, "rc": r.returncode}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res["states"], res["distinct"] = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"(\d+) states checked", out) or re.findall(r"The number of states generated: (\d+)", out)
            res["states"] = res["distinct"] = int(m[-1]) if m else 0
        printed = []
        for line in out.splitlines():
            if line.startswith('"@@'):          # PrintT of a string that is tag + JSON
                s = json.loads(line)
                tag, _, body = s[2:].partition(" ")
                printed.append((tag, json.loads(body)))
        res["printed"] = printed
        res["error"] = "Error:" in out or r.returncode != 0
        if res["error"] and not expect_error:
            raise CheckError("TLC reported an error on %s:\n%s" % (module, out[out.find("Error:"):][:1500] + "\n...\n" + out[-4000:]))
        self.cov["states"] += res["distinct"]
        self.cov["transitions"] += max(0, res["states"])
        return res

    def emitted(self, res, fname):
        p = os.path.join(res["dir"], fname)
        return [json.loads(l) for l in open(p)]

    # ------------------------------------------------------------------ verdicts
    def violation(self, key, desc, data=None):
        self.viol.append((key, desc, data))

    def sample(self, s, limit=6):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def traces(self, n):
        self.cov["traces_validated_against_impl"] += n


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}


def finish(ctx):
    kf = [k for k in known_findings()["known"] if k["property"] == ctx.pid]
    seen, real = {}, []
    for key, desc, data in ctx.viol:
        hit = next((k for k in kf if re.fullmatch(k["match"], key)), None)
        if hit:
            seen.setdefault(hit["match"], (hit, key))
        else:
            real.append((key, desc, data))
    for hit, key in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (ctx.pid, hit["what"]))
    for k in kf:
        if k["match"] not in seen and ctx.cov.get("known_probed", True):
            print("note: known finding not reproduced in this run: %s" % k["what"])
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rc = 0
    if real:
        rp = os.path.join(VERIF, "evidence", "replay", "%s_%s_%d.json" % (ctx.pid, ctx.tier, ctx.seed))
        with open(rp, "w") as f:
            json.dump([{"key": k, "what": d, "data": x} for k, d, x in real[:50]], f, indent=1, default=str)
        for k, d, x in real[:8]:
            print("  %s: %s" % (k, d[:600]))
        if len(real) > 8:
            print("  ... and %d more" % (len(real) - 8))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, rp))
        rc = 1
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": ctx.level, "coverage": ctx.cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(real)}
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s seed=%d: %s in %.1f s; %d states, %d transitions, %d traces bound" % (
        ctx.pid, ctx.tier, ctx.seed, "ok" if rc == 0 else "VIOLATED", time.time() - ctx.t0, ctx.cov["states"],
        ctx.cov["transitions"], ctx.cov["traces_validated_against_impl"]))
    return rc
