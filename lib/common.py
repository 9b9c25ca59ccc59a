"""Shared machinery: builds the code under test, runs TLC, writes evidence, reports verdicts."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"
CLASSPATH = TLA_JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The machinery itself failed: never a verdict."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = tempfile.mkdtemp(prefix="gtverif-")
        _scratch = base
        atexit.register(lambda: shutil.rmtree(base, ignore_errors=True))
    return _scratch


def mkdir(name):
    return tempfile.mkdtemp(prefix=name + "-", dir=scratch())


def go_env(extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GOTEMPLATE", "GT_"))}
    env.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
               PATH="/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    if extra:
        env.update(extra)
    return env


def _hash_mod():
    res = []
    for f in ("go.mod", "go.sum"):
        with open(os.path.join(REPO, f), "rb") as fd:
            res.append(fd.read())
    return res


_built = {}


def harness(race=False):
    """The Go driver (verif/harness), compiled inside the module through an overlay."""
    key = "harness-race" if race else "harness"
    if key not in _built:
        d = mkdir("bin")
        src = os.path.join(VERIF, "harness")
        overlay = {"Replace": {os.path.join(REPO, "zz_verif_harness", f): os.path.join(src, f)
                               for f in sorted(os.listdir(src)) if f.endswith(".go")}}
        ov = os.path.join(d, "overlay.json")
        with open(ov, "w") as f:
            json.dump(overlay, f)
        out = os.path.join(d, "harness")
        before = _hash_mod()
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-overlay", ov, "-o", out, "./zz_verif_harness"]
        r = subprocess.run(cmd, cwd=REPO, env=go_env(), timeout=800,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("harness build failed:\n" + r.stdout[-4000:])
        if _hash_mod() != before:
            raise CheckError("the build altered go.mod/go.sum")
        _built[key] = out
    return _built[key]


def cli():
    """The real command, built from the working tree."""
    if "cli" not in _built:
        d = mkdir("bin")
        out = os.path.join(d, "gotemplate")
        r = subprocess.run(["go", "build", "-o", out, "."], cwd=REPO, env=go_env(), timeout=800,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + r.stdout[-4000:])
        _built["cli"] = out
    return _built["cli"]


def _limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run_harness(mode, cases, race=False, procs=None, timeout=600, stall=60, env=None, cwd=None):
    """Sends the cases (one JSON per line) to harness processes; returns the list of answers in order.

    A process that dies while evaluating a case gives {"crash": text} for that case (the case is what was
    being evaluated: answers are flushed one at a time); the remaining cases go on in a new process."""
    exe = harness(race)
    procs = procs or min(NCPU, max(1, len(cases) // 20 + 1))
    chunks = [list(range(i, len(cases), procs)) for i in range(procs)]
    answers = [None] * len(cases)
    deadline = time.time() + timeout

    def work(idx):
        todo = list(idx)
        crashes = 0
        while todo:
            d = mkdir("h") if cwd is None else cwd
            inp = os.path.join(d, "in.%d.jsonl" % id(todo))
            with open(inp, "w") as f:
                for i in todo:
                    f.write(json.dumps(cases[i]) + "\n")
            e = go_env(env)
            e.update(GOTEMPLATE_NO_STDIN="1", TMPDIR=d)
            outf, errf = inp + ".out", inp + ".err"
            stalled = False
            with open(inp) as fi, open(outf, "wb") as fo, open(errf, "wb") as fe:
                p = subprocess.Popen([exe, mode], stdin=fi, stdout=fo, stderr=fe, env=e, cwd=d,
                                     preexec_fn=None if race else _limit_memory)
                last, since = 0, time.time()
                while True:
                    try:
                        p.wait(0.05 if last == 0 else 0.5)
                        break
                    except subprocess.TimeoutExpired:
                        size = os.path.getsize(outf)
                        if size != last:
                            last, since = size, time.time()
                        if time.time() - since > stall or time.time() > deadline:
                            stalled = time.time() <= deadline
                            p.kill()
                            p.wait()
                            if not stalled:
                                raise CheckError("harness timeout in mode %s" % mode)
                            break
            out, err = (open(f, errors="replace").read() for f in (outf, errf))
            if stalled:
                err = "no answer after %d seconds" % stall
            n = 0
            for line in out.split("\n"):
                if line.startswith("@@"):
                    answers[todo[n]] = json.loads(line[2:])
                    n += 1
            if race and "DATA RACE" in err:
                k = todo[min(max(n, 1), len(todo)) - 1]
                answers[k] = dict(answers[k] or {}, race=err[:6000])
            if n < len(todo):
                if p.returncode == 0 and not stalled:
                    raise CheckError("harness ended early: " + err[-2000:])
                answers[todo[n]] = dict(answers[todo[n]] or {}, crash=err[-3000:] or "exit %s" % p.returncode)
                crashes += 1
                n += 1
                if crashes > 3:
                    for i in todo[n:]:
                        answers[i] = answers[todo[n - 1]]
                    return
            todo = todo[n:]
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(work, [c for c in chunks if c]))
    return answers


# ---------------------------------------------------------------- TLC

class TlcResult:
    def __init__(self):
        self.states = self.distinct = self.traces = 0
        self.records, self.text, self.coverage = [], "", {}
        self.violated = None


_REC = re.compile(r'^<<"@@", (".*")>>$')


def tlc(module, cfg=None, simulate=None, depth=None, seed=None, workers=None, timeout=600,
        consts=None, extra=None, files=None, heap="3g", coverage=True, expect_ok=True, dfs=False):
    """Runs TLC on spec/<module>.tla with spec/<cfg>.cfg, optionally appending constant definitions."""
    d = mkdir("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for name, content in (files or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(content)
    cfgfile = os.path.join(d, "run.cfg")
    with open(os.path.join(SPEC, (cfg or module) + ".cfg")) as f:
        text = f.read()
    root = module
    if consts:
        # the constants are defined in a module which extends the specification (any expression is accepted)
        root = "Run" + module
        text += "\nCONSTANTS\n" + "\n".join("  %s <- const_%s" % (k, k) for k in consts) + "\n"
        with open(os.path.join(d, root + ".tla"), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS %s\n" % (root, module))
            f.write("".join("const_%s == %s\n" % kv for kv in consts.items()) + "====\n")
    with open(cfgfile, "w") as f:
        f.write(text)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Dtlc2.TLC.stopAfter=%d" % timeout]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CLASSPATH, "tlc2.TLC", "-config", "run.cfg", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-deadlock"]
    if coverage and not simulate:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 20)]
        cmd += ["-seed", str(SEED if seed is None else seed), "-workers", str(workers or 1)]
    else:
        cmd += ["-workers", str(workers or NCPU)]
    cmd += (extra or []) + [root + ".tla"]
    outfile = os.path.join(d, "out.txt")
    with open(outfile, "w") as fo:
        try:
            r = subprocess.run(cmd, cwd=d, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout + 60)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timeout on " + module)
    res = TlcResult()
    keep = []
    with open(outfile, errors="replace") as f:
        for line in f:
            line = line.rstrip("\n")
            m = _REC.match(line)
            if m:
                res.records.append(json.loads(json.loads(m.group(1).replace("\\'", "'"))))
            elif not re.match(r" +\|*line \d+, col|Parsing file|Semantic processing", line):
                keep.append(line)
    res.text = "\n".join(keep)
    if not simulate:
        res.records.sort(key=lambda r: json.dumps(r, sort_keys=True))      # workers print them in any order
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states", res.text)
    if m:
        res.states, res.distinct = (int(x.replace(",", "")) for x in m[-1])
    m = re.findall(r"The number of states generated: ([\d,]+)", res.text)
    if m:
        res.states = res.distinct = int(m[-1].replace(",", ""))
    for m in re.finditer(r"^<(\w+) line[^>]*>: (\d+):(\d+)", res.text, re.M):
        res.coverage[m.group(1)] = int(m.group(3)) + res.coverage.get(m.group(1), 0)
    res.code = r.returncode
    m = re.search(r"(Invariant|Action property|Temporal properties?|Postcondition) ?(\S*) ?(is|was|were|has been)? violated", res.text)
    if m or "is violated" in res.text or "POSTCONDITION" in res.text and "false" in res.text.lower():
        res.violated = m.group(0) if m else "violated"
    if expect_ok and r.returncode != 0:
        i = max(0, res.text.find("Error:"))
        raise CheckError("TLC failed (%d) on %s:\n%s\n...\n%s" % (r.returncode, module, res.text[i:i + 2500], res.text[-2500:]))
    shutil.rmtree(d, ignore_errors=True)
    return res


def tlc_many(jobs):
    """jobs: list of dict(kwargs of tlc); run in parallel, results in order."""
    with ThreadPoolExecutor(min(len(jobs), max(2, NCPU // 2 + 2))) as ex:
        return list(ex.map(lambda j: tlc(**j), jobs))


# ---------------------------------------------------------------- verdicts

class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations, self.known_hits = [], {}
        self.assumptions = []
        self.known = load_known(prop)

    def model(self, r):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.states

    def count(self, n=1, **kw):
        self.cov["traces_validated_against_impl"] += n
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def actions(self, cov):
        a = self.cov.setdefault("actions", {})
        for k, v in cov.items():
            a[k] = a.get(k, 0) + v

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def violation(self, what, case):
        """case: JSON-able description of the failing input and of the difference."""
        for k in self.known:
            if k["match"](what, case):
                self.known_hits.setdefault(k["id"], k["text"])
                return
        if len(self.violations) < 25:
            self.violations.append(dict(what=what, case=case))
        else:
            self.violations.append(None)

    def finish(self):
        if self.cov["traces_validated_against_impl"] == 0 and not self.violations:
            raise CheckError("nothing was executed")
        for text in self.known_hits.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        ev = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
        path = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
        if os.path.exists(path):
            os.unlink(path)
        if self.violations:
            path = os.path.join(VERIF, "evidence", "replay-%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([v for v in self.violations if v], f, indent=1, ensure_ascii=False, default=str)
            v = self.violations[0]
            print("%d violation(s); first: %s" % (len(self.violations), v["what"]))
            print(json.dumps(v["case"], ensure_ascii=False, default=str)[:3000])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("OK property=%s tier=%s states=%d impl_traces=%d wall=%.1fs" % (
            self.prop, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def load_known(prop):
    """known-findings.txt lines: 'known: property=<id> match=<regular expression> <text>'; fixed: lines suppress nothing."""
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for n, line in enumerate(open(path)):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                rx = re.compile(m.group(2))
                res.append(dict(id=n, text=m.group(3),
                                match=lambda what, case, rx=rx: bool(rx.search(what + " " + json.dumps(case, default=str)))))
    return res
