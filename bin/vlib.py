"""Plumbing of the checks: TLC generates, the harness runs, TLC judges.

Nothing in here decides a property: verdicts come from the trace specifications.
Any failure of the tooling raises ToolError (exit 2), never a violation.
"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME=os.environ.get("HOME", "/root"))


# what the Go runtime reports when it cannot go on because of the program
CRASHES = ("stack exceeds", "stack overflow", "fatal error: concurrent map", "all goroutines are asleep", "DATA RACE", "fatal error: sync:")


class ToolError(Exception):
    pass


class Run:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = 0
        self.tlc_runs = []
        self.violations = []   # (key, text, data)
        self.notes = {}
        self._harness = {}

    # ------------------------------------------------------------------
    def path(self, *a):
        return os.path.join(self.dir, *a)

    def sub(self, name):
        d = tempfile.mkdtemp(prefix=name + "-", dir=self.dir)
        return d

    def goenv(self, **kw):
        e = dict(os.environ)
        e.update(GOENV)
        e.update(kw)
        return e

    def harness(self, race=False):
        """builds the driver against the current working tree of /repo"""
        if race in self._harness:
            return self._harness[race]
        src = self.path("harness-src")
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, "harness"), src)
        out = self.path("harness" + ("-race" if race else ""))
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        p = subprocess.run(cmd, cwd=src, env=self.goenv(CGO_ENABLED="1" if race else "0"), capture_output=True, text=True)
        if p.returncode != 0:
            raise ToolError("building the harness failed:\n" + p.stderr[-4000:])
        self._harness[race] = out
        return out

    def cli(self):
        """builds the command line tool from the current working tree of /repo"""
        out = self.path("html2markdown")
        if not os.path.exists(out):
            p = subprocess.run(["go", "build", "-buildvcs=false", "-o", out, "./cli/html2markdown"], cwd="/repo", env=self.goenv(CGO_ENABLED="0"), capture_output=True, text=True)
            if p.returncode != 0:
                raise ToolError("building the command line tool failed:\n" + p.stderr[-4000:])
        return out

    def drive(self, mode, cases, race=False, timeout=600, workers=6, env=None, args=()):
        """runs the cases (a list of objects) through the real code"""
        h = self.harness(race)
        n = max(1, min(workers, len(cases) // 50 + 1))
        parts = [cases[i::n] for i in range(n)]

        def one(part):
            inp = "\n".join(json.dumps(c, ensure_ascii=False) for c in part) + "\n"
            try:
                p = subprocess.run([h, mode] + list(args), input=inp.encode(), capture_output=True, timeout=timeout,
                                   env=dict(os.environ, **(env or {})), cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise ToolError("the driver (%s) did not finish within %d s" % (mode, timeout))
            r = [json.loads(l) for l in p.stdout.decode().split("\n") if l.strip()]
            err = p.stderr.decode(errors="replace")
            if p.returncode == 7 and r:     # the last record is one that did not come to an end
                return r
            if p.returncode in (2, 66) and len(r) < len(part) and any(x in err for x in CRASHES):
                # the Go runtime ended the process: the conversion after the last record did it
                self.violation(dict(crash=part[len(r)]), "the process crashed: %s: %s" % (err[:1500], json.dumps(part[len(r)], ensure_ascii=False)), part[len(r)])
                return r
            if p.returncode != 0:
                raise ToolError("the driver (%s) failed (%d): %s" % (mode, p.returncode, err[-3000:]))
            if len(r) != len(part):
                raise ToolError("the driver (%s) returned %d records for %d cases" % (mode, len(r), len(part)))
            return r
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(one, parts))
        return sorted((r for p in res for r in p), key=lambda r: r["id"])

    # ------------------------------------------------------------------
    def tlc(self, module, cfg, args=(), env=None, workers=8, timeout=800, heap="6g", ok_codes=(0,), parallel=True):
        """runs TLC in a directory of its own; returns its output"""
        d = self.sub(module)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + d,
               "-cp", TLA, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"),
               "-config", "MC.cfg"] + list(args) + [module + ".tla"]
        outp = os.path.join(d, "out.txt")
        t = time.time()
        with open(outp, "wb") as f:
            try:
                p = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=dict(os.environ, **(env or {})))
            except subprocess.TimeoutExpired:
                raise ToolError("TLC on %s did not finish within %d s" % (module, timeout))
        out = open(outp, encoding="utf-8", errors="replace").read()
        if p.returncode not in ok_codes:
            raise ToolError("TLC on %s failed (%d):\n%s" % (module, p.returncode, out[-3000:]))
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        g = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        m2 = re.findall(r"^(?:Progress: )?.*?(\d[\d,]*) states checked", out, re.M)
        if not m and m2:
            g = (int(m2[-1].replace(",", "")),) * 2
        self.transitions += g[0]
        self.states += g[1]
        self.tlc_runs.append(dict(module=module, generated=g[0], distinct=g[1], wall_s=round(time.time() - t, 1)))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        return out

    def generate(self, module, cfg, num, procs=6, depth=2000, tag="CASE", timeout=600, salt=0):
        """simulates `module`, which prints one line per finished behaviour"""
        rng = random.Random("%d/%s/%s/%d" % (self.seed, self.prop, cfg, salt))
        procs = max(1, min(procs, num // 40 + 1))
        jobs = [(num // procs + (1 if i < num % procs else 0), rng.randrange(1, 2 ** 31)) for i in range(procs)]

        def one(j):
            return self.tlc(module, cfg, args=["-simulate", "num=%d" % j[0], "-depth", str(depth), "-seed", str(j[1])],
                            workers=1, timeout=timeout, heap="2g")
        with ThreadPoolExecutor(procs) as ex:
            outs = list(ex.map(one, jobs))
        cases, seen = [], set()
        for o in outs:
            for c in printed(o, tag):
                if c not in seen:
                    seen.add(c)
                    cases.append(json.loads(c))
        if len(cases) < 1:
            raise ToolError("%s generated no case\n%s" % (module, outs[0][-2000:]))
        return cases

    def enumerate(self, module, cfg, tag="CASE", timeout=600, workers=4):
        """explores `module` exhaustively; it prints one line per case"""
        out = self.tlc(module, cfg, workers=workers, timeout=timeout)
        seen, cases = set(), []
        for c in printed(out, tag):
            if c not in seen:
                seen.add(c)
                cases.append(json.loads(c))
        if not cases:
            raise ToolError("%s generated no case\n%s" % (module, out[-2000:]))
        return cases

    def judge(self, module, cfg, records, workers=8, timeout=800, chunk=40000, env=None):
        """replays the records against a trace specification; returns {id: [failed aspects]}"""
        res = {}
        self.details = getattr(self, "details", {})
        for k in range(0, len(records), chunk):
            part = records[k:k + chunk]
            f = self.path("recs-%s-%d.ndjson" % (module, k))
            with open(f, "w") as w:
                for r in part:
                    w.write(json.dumps(r, ensure_ascii=False) + "\n")
            out = self.tlc(module, cfg, env=dict(env or {}, RECS=f), workers=workers, timeout=timeout)
            for l in printed(out, "V"):
                i, v = l.split(" ", 1)
                res[int(i)] = json.loads(v)
            for l in printed(out, "D"):
                i, v = l.split(" ", 1)
                self.details[int(i)] = v
            os.remove(f)
        missing = [r["id"] for r in records if r["id"] not in res]
        if missing:
            raise ToolError("%s gave no verdict for %d of %d records (e.g. %s)" % (module, len(missing), len(records), missing[:3]))
        self.traces += len(records)
        return res

    # ------------------------------------------------------------------
    def violation(self, key, text, data):
        self.violations.append((key, text, data))

    def finish(self, coverage):
        known = {json.dumps(e["key"], sort_keys=True): e for e in load_known(self.prop) if "key" in e}
        unknown, hit = [], {}
        for key, text, data in self.violations:
            k = json.dumps(key, sort_keys=True)
            if k in known:
                hit[k] = known[k]
            else:
                unknown.append((key, text, data))
        for e in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        rc = 0
        if unknown:
            rc = 1
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.prop + ".json")
            with open(rp, "w") as f:
                json.dump([dict(what=t, record=d) for _, t, d in unknown[:50]], f, ensure_ascii=False, indent=1)
            for _, t, _ in unknown[:int(os.environ.get("VERIF_SHOW", "5"))]:
                print("  " + t[:1500])
            print("%d violating records" % len(unknown))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=[])
        cov.update(coverage)
        ev = dict(property=self.prop, tier="thorough" if self.thorough else "quick", seed=self.seed, level="model_checking",
                  coverage=cov, wall_s=round(time.time() - self.t0, 1))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        print("%s: %d records judged, %d states, %.1f s, %s" % (self.prop, self.traces, self.states, time.time() - self.t0, "VIOLATED" if rc else "held"))
        return rc

    def cleanup(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.dir)
        else:
            shutil.rmtree(self.dir, ignore_errors=True)


def printed(out, tag):
    """the lines that a specification printed with PrintT(tag \\o " " \\o json)"""
    pre = '"' + tag + " "
    for l in out.split("\n"):
        if l.startswith(pre) and l.endswith('"'):
            yield json.loads(l)[len(tag) + 1:]


def load_known(prop):
    """the listed findings of a property (never written at run time)"""
    res = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            if l.startswith("finding: "):
                d = json.loads(l[9:])
                if d["property"] == prop:
                    res.append(d)
    return res


def chars_to_str(cs):
    m = {"NL": "\n", "TAB": "\t", "CR": "\r", "FF": "\f", "NBSP": "\u00a0"}
    return "".join(m.get(c, c) for c in cs)


def out_to_str(lines):
    return "\n".join(chars_to_str(l) for l in lines)
