"""C01, C02, C03, C19: runs of the FileFlow specification executed by the real command or by the API."""
from common import *
import random, stat, threading

BYSTANDER = "left {{ alone }}\n"


# the texts also depend on the number of the file: line ends, mentions of gotemplate in scripts
EOL = ["\n", "\r\nend\r\n", "", "\n\n"]
SCRIPT = ["#!/bin/sh\n", "#! /bin/sh\n# by gotemplate\n"]


def source(j, cls):
    return {
        "code": "v%d {{ add 1 %d }}" + EOL[j % 4], "plain": "text %d without code %d" + EOL[(j + 1) % 4], "empty": '{{ "" }}{{/* %d %d */}}', "blank": ' {{ "" }}{{/* %d %d */}}\n',
        "script": SCRIPT[j % 2] + "echo %d {{ add 1 %d }}\n", "shebang": "#! /usr/bin/env gotemplate\nn%d {{ add 1 %d }}\n",
        "error": "e%d {{ undefinedFunction %d }}\nafter\n", "novalue": "n%d {{ .missing%d }}\nafter\n",
        "marked": "// force-gotemplate!\nm%d {{ undefinedFunction %d }}\n",
        "set": '{{ set . "ctx" "leak" }}{{ set .shared "k" "leak" }}w%d %d\n',
        "rset": '@{ctx} := "leak"\n@{shared} := "leak"\nw%d %d @{ctx}\n',
        "get": '{{ default "clean" (get . "ctx") }} {{ typeOf .shared }} {{ default "clean" (get .shared "k") }} %d %d\n',
    }[cls] % (j, j)


def rendered(j, cls):
    if cls in ("plain", "error", "novalue", "marked"):
        return source(j, cls)
    return {"code": "v%d %d" % (j, j + 1) + EOL[j % 4], "empty": "", "blank": " \n", "script": SCRIPT[j % 2] + "echo %d %d\n" % (j, j + 1),
            "shebang": "n%d %d\n" % (j, j + 1), "set": "w%d %d\n" % (j, j), "rset": "\nw%d %d leak\n" % (j, j),
            "get": "clean json.jsonDict clean %d %d\n" % (j, j)}[cls]


def content(token, files):
    j = int(token[1:]) if len(token) > 1 else 0
    return {"S": lambda: source(j, files[j - 1]["cls"]), "R": lambda: rendered(j, files[j - 1]["cls"]), "H": lambda: "handled %d\n" % j,
            "O": lambda: "existing %d\n" % j, "Q": lambda: "backup %d\n" % j, "B": lambda: BYSTANDER}[token[0]]()


def token_of(text, path, rec):
    """The token of an observed content (that of the files which may be at this path)."""
    files = rec["files"]
    if text == BYSTANDER:
        return "B"
    for j, f in enumerate(files, 1):
        if path not in (f["src"], f["dst"], f["orig_"]):
            continue
        for t in "SRHOQ":
            if text == content(t + str(j), files):
                return t + str(j)
        if rendered(j, f["cls"]).startswith(text):
            return "P%d" % j
    return "X " + text[:60]


def real(base, p):
    return os.path.join(base, "target", p[7:]) if p.startswith("target/") else os.path.join(base, "src", p)


def build(base, rec):
    os.makedirs(os.path.join(base, "src"))
    os.makedirs(os.path.join(base, "tmp"))
    for p, c, m in rec["init"]:
        f = real(base, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w", newline="") as fd:
            fd.write(content(c, rec["files"]))
        os.chmod(f, m)


def observe(base):
    """path of the model -> (content, mode)"""
    res = {}
    for top, prefix in (("src", ""), ("target", "target/")):
        root = os.path.join(base, top)
        for d, _, files in os.walk(root):
            for n in files:
                f = os.path.join(d, n)
                with open(f, errors="surrogateescape", newline="") as fd:
                    res[prefix + os.path.relpath(f, root)] = (fd.read(), stat.S_IMODE(os.lstat(f).st_mode))
    return res


def expected(rec):
    return {p: (content(c, rec["files"]), m) for p, c, m in rec["fs"]}


def arguments(rec, n, base):
    o = rec["opts"]
    args = []
    if o["o"]:
        args.append(["-o", "--overwrite"][n % 2])
    if o["p"]:
        args.append(["-P", "--print"][n % 2])
    if o["s"]:
        args.append(["-S", "--strict"][n % 2])
    if o["t"]:
        args += ["--target", os.path.join(base, "target")]
    args += ["--var", 'shared={"a":1}']
    files = [f["src"] for f in rec["files"]]
    cwd = os.path.join(base, "src")
    way = n % 4
    if way == 3 and len(files) == 1 and all(f["tpl"] for f in rec["files"]):
        args.append("-r")
    else:
        if way == 1:
            files = [os.path.join(cwd, f) for f in files]
        elif way == 2:
            args += ["--source", "src" if n % 8 < 4 else cwd]
            cwd = base
        args = ["run"] + args + files if n % 5 == 0 else args + files
    return args, cwd


def launch(exe, args, cwd, base, wrapper=None):
    env = go_env()
    env.update(GOTEMPLATE_NO_STDIN="1", TMPDIR=os.path.join(base, "tmp"))
    try:
        p = subprocess.run((wrapper or []) + [exe] + args, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60, preexec_fn=lambda: os.umask(0))
    except subprocess.TimeoutExpired:
        return None
    return p


def difference(want, got):
    for p in sorted(set(want) | set(got)):
        if p not in got:
            return "%s is missing" % p
        if p not in want:
            return "%s should not exist (%r)" % (p, got[p][0][:60])
        if want[p][0] != got[p][0]:
            return "%s contains %r instead of %r" % (p, got[p][0][:80], want[p][0][:80])
        if want[p][1] != got[p][1]:
            return "%s has mode %o instead of %o" % (p, got[p][1], want[p][1])


def describe(rec, args):
    return dict(files=[{k: f[k] for k in ("src", "cls", "m", "dest", "orig", "h")} for f in rec["files"]], opts=rec["opts"], arguments=args)


def run_cli(c, recs, tmp_clean=True):
    exe = cli()

    def one(item):
        n, rec = item
        base = mkdir("ff")
        try:
            build(base, rec)
            args, cwd = arguments(rec, n + SEED, base)
            p = launch(exe, args, cwd, base)
            if p is None:
                return rec, args, "no answer after 60 s", {}
            got = observe(base)
            what = difference(expected(rec), got)
            out = p.stdout.decode(errors="replace")
            want_out = "".join(content(t, rec["files"]) for t in rec["out"])
            if not what and out != want_out:
                what = "the standard output is %r instead of %r" % (out[:200], want_out[:200])
            if not what and (p.returncode != 0) != (rec["exit"] != 0):
                what = "exit code %d instead of %s" % (p.returncode, "0" if rec["exit"] == 0 else "non-zero")
            if not what and tmp_clean and os.listdir(os.path.join(base, "tmp")):
                what = "temporary files left: %s" % os.listdir(os.path.join(base, "tmp"))
            return rec, args, what, dict(stderr=p.stderr.decode(errors="replace")[-600:], observed={k: [v[0][:100], oct(v[1])] for k, v in got.items()})
        finally:
            shutil.rmtree(base, ignore_errors=True)
    with ThreadPoolExecutor(NCPU) as ex:
        for rec, args, what, info in ex.map(one, enumerate(recs)):
            c.count(1, commands=1)
            if what:
                c.violation("%s" % what, dict(describe(rec, args), **info))
    if recs:
        c.sample(describe(recs[0], []) | dict(result=recs[0]["fs"]))
        c.sample(describe(recs[-1], []) | dict(result=recs[-1]["fs"]))


CLS = ["code", "plain", "empty", "blank", "script", "shebang", "error", "novalue", "marked", "set", "rset", "get"]


def tset(x):
    return "{" + ", ".join('"%s"' % e if isinstance(e, str) else str(e) for e in x) + "}"


def optset(pred=lambda o: True):
    res = []
    for k in range(16):
        o = dict(o=bool(k & 1), p=bool(k & 2), t=bool(k & 4), s=bool(k & 8))
        if pred(o):
            res.append("[" + ", ".join("%s |-> %s" % (a, "TRUE" if v else "FALSE") for a, v in o.items()) + "]")
    return "{" + ", ".join(res) + "}"


def consts(files=1, exts=(".txt", "", ".tf"), kinds=("gt", "template", "plain"), classes=CLS, modes=(420,), dirs=("",), names=("f1",),
           opts=None, handlers=("none",), faults=0, sim=False, emit=True):
    return dict(MaxFiles=files, Exts=tset(exts), Kinds=tset(kinds), Classes=tset(classes), Modes=tset(modes), Dirs=tset(dirs),
                Names=tset(names), OptSet=opts or optset(), Handlers=tset(handlers), MaxFaults=faults,
                Sim="TRUE" if sim else "FALSE", Emit="TRUE" if emit else "FALSE")


WIDE = dict(exts=(".txt", "", ".tf", ".sh", ".json"), modes=(420, 493, 384, 438), dirs=("", "sub/", "deep/er dir/"), names=("f1", "f2", "g.h", "é[x]", "{a,b}"))


def sim(num, seed, depth=60, **kw):
    args = dict(WIDE)
    args.update(kw)
    return dict(module="FileFlow", cfg="FileFlowGen", simulate=num, depth=depth, seed=seed, consts=consts(sim=True, **args))


def sample(recs, limit):
    return recs if len(recs) <= limit else random.Random(SEED).sample(recs, limit)


def C01(c):
    deep = c.tier == "thorough"
    jobs = [dict(module="FileFlow", cfg="FileFlowGen", consts=consts(1, modes=(420, 493, 384) if deep else (420, 384)), timeout=1200),
            sim(3000 if deep else 400, SEED, files=1), sim(3000 if deep else 400, SEED + 1, files=3),
            sim(1500 if deep else 100, SEED + 2, files=10, depth=250)]
    res = tlc_many(jobs)
    c.model(res[0])
    c.cov["single_file_runs_enumerated"] = len(res[0].records)
    c.cov["exhaustive"] = deep
    recs = sample(res[0].records, 100000 if deep else 2500) + [r for x in res[1:] for r in x.records]
    run_cli(c, recs)
    c.actions(res[0].coverage)
    c.assumptions += ["the file system keeps the mode given at creation (the runs are made with a null umask)",
                      "the target folder, when distinct, is outside of the source folder"]


def C03(c):
    deep = c.tier == "thorough"
    iso = ["code", "plain", "error", "novalue", "shebang", "set", "rset", "get", "get"]
    jobs = [dict(module="FileFlow", cfg="FileFlowGen", timeout=1200,
                 consts=consts(2, exts=(".txt",), kinds=("gt", "plain"), classes=["code", "plain", "error", "shebang", "set", "rset", "get"],
                               names=("f1", "f2"), opts=optset(lambda o: not o["t"] and not o["s"])))]
    jobs += [sim(2500 if deep else 250, SEED * 10 + k, files=(3, 5, 4)[k % 3], classes=iso, names=("f1", "f2", "f3", "f4", "f5"),
                 exts=(".txt", ".json"), depth=90) for k in range(3)]
    jobs += [sim(2000 if deep else 250, SEED * 10 + 7 + k, files=4, classes=iso, names=("f1", "f2", "f3", "f4"), exts=(".txt", ".sh"), depth=90) for k in range(2)]
    res = tlc_many(jobs)
    c.model(res[0])
    c.actions(res[0].coverage)
    run_cli(c, sample(res[0].records, 100000 if deep else 1200) + [r for x in res[1:4] for r in x.records])
    run_api(c, sample(res[0].records, 20000 if deep else 600) + [r for x in res[4:] for r in x.records])


def C19(c):
    deep = c.tier == "thorough"
    handlers = ("keep", "fail", "clear", "replace", "touch")
    noshe = [x for x in CLS if x != "shebang"]
    jobs = [dict(module="FileFlow", cfg="FileFlowGen", timeout=1200,
                 consts=consts(1, classes=noshe, handlers=handlers, exts=(".txt", ""), kinds=("gt", "plain")))]
    jobs += [sim(3000 if deep else 300, SEED * 10 + k, files=4, classes=noshe, handlers=handlers, depth=90, exts=(".txt", "", ".sh"),
                 names=("f1", "f2", "f3")) for k in range(3)]
    jobs += [sim(2000 if deep else 150, SEED * 10 + 5, files=12, classes=noshe, handlers=handlers, depth=250, exts=(".txt", "", ".sh"),
                 names=("f1", "f2", "f3", "f4"))]
    res = tlc_many(jobs)
    c.model(res[0])
    c.actions(res[0].coverage)
    run_api(c, sample(res[0].records, 50000 if deep else 2500) + [r for x in res[1:] for r in x.records])


def run_api(c, recs):
    """ProcessTemplates/ProcessTemplatesWithHandler: the produced files, the errors, the calls of the handler and the tree."""
    root = mkdir("api")
    cases, bases = [], []
    for n, rec in enumerate(recs):
        base = os.path.join(root, str(n))
        os.makedirs(base)
        build(base, rec)
        bases.append(base)
        o = rec["opts"]
        src = os.path.join(base, "src")
        hs = {f["src"]: f["h"] for f in rec["files"]}
        cases.append(dict(dir=src, target=os.path.join(base, "target") if o["t"] else src, files=[f["src"] for f in rec["files"]],
                          opts=dict(Overwrite=o["o"] or o["t"], OutputStdout=o["p"], StrictErrorCheck=o["s"]), ctx=dict(shared=dict(a=1)),
                          handler=None if all(h == "none" for h in hs.values()) else hs,
                          replaced={f["src"]: "handled %d\n" % (j + 1) for j, f in enumerate(rec["files"])},
                          separate=n % 7 == 3))
    os.umask(0)
    try:
        ans = run_harness("files", cases)
    finally:
        os.umask(0o022)
    for rec, case, base, a in zip(recs, cases, bases, ans):
        c.count(1, api_calls=1)
        files = rec["files"]
        what = None
        if a.get("crash") or a.get("panic"):
            what = "panic: %s" % (a.get("crash") or a.get("panic"))[:300]
        if not what:
            what = difference(expected(rec), observe(base))
        if not what:
            want = [os.path.normpath(real(base, p)) for p in rec["done"]]
            got = [os.path.normpath(os.path.join(case["dir"], p)) for p in a["files"] or []]
            if got != want:
                what = "the produced files are %s instead of %s" % (got, want)
        if not what:
            bad = rec["bad"]
            if bool(a["err"]) != bool(bad):
                what = "error %r while %d file(s) fail" % (a["err"], len(bad))
            for j, f in enumerate(files, 1):
                if f["h"] == "fail":
                    continue
                if not what and bool(re.search(r"(?:^|[\s\x1b]|\dm)" + re.escape(f["src"]) + ":", a["err"])) != (j in bad):
                    what = "%s %s reported: %r" % (f["src"], "is not" if j in bad else "should not be", a["err"])
            if not what and a["err"].count("refused by the handler") != sum(f["h"] == "fail" for f in files):
                what = "errors of the handler lost: %r" % a["err"]
        if not what and case["handler"]:
            calls = [dict(Name=files[k["i"] - 1]["src"], Original=content("S%d" % k["i"], files), Result=None if k["r"] == "-" else content(k["r"], files),
                          Changed=k["ch"], Failed=k["st"] == "failed") for k in rec["calls"]]
            got = a["calls"] or []
            for g, w in zip(got, calls):
                if w["Result"] is None:
                    g["Result"] = None
                if w["Failed"]:
                    g["Changed"] = w["Changed"]          # unspecified for a failure
            if got != calls:
                what = "calls of the handler: %s instead of %s" % (got, calls)
        if what:
            c.violation(what, dict(describe(rec, case["files"]), handler=case["handler"], answer=a))
    if recs:
        c.sample(dict(describe(recs[-1], []), calls=recs[-1]["calls"]))


# ------------------------------------------------------------------ C02

def tracer():
    if "tracer" not in _tracer:
        out = os.path.join(mkdir("bin"), "fstrace")
        r = subprocess.run(["gcc", "-O1", "-o", out, os.path.join(VERIF, "tracer", "fstrace.c")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise CheckError("tracer: " + r.stdout[-2000:])
        _tracer["tracer"] = out
    return _tracer["tracer"]


_tracer = {}


def faulty_run(exe, rec, n, k, action):
    base = mkdir("ft")
    try:
        build(base, rec)
        args, cwd = arguments(rec, n + SEED, base)
        log = os.path.join(base, "log")
        p = launch(exe, args, cwd, base, [tracer(), log, base, str(k), action, "--"])
        if p is None:
            return None
        lines = [json.loads(x) for x in open(log)]
        if not lines or "end" not in lines[-1]:
            raise CheckError("the tracer failed: %s %s" % (p.returncode, p.stderr[-500:]))
        ops = [x for x in lines[:-1] if not x["path"].startswith(os.path.join(base, "tmp"))]
        for x in lines[:-1]:
            for q in ("path", "path2"):
                if q in x:
                    x[q] = os.path.relpath(x[q], base)
        return dict(n=n, k=k, action=action, args=args, code=p.returncode, ops=ops, count=lines[-1]["count"], tree=observe(base),
                    stderr=p.stderr.decode(errors="replace")[-400:], op=next((x for x in ops if x["n"] == k), None))
    finally:
        shutil.rmtree(base, ignore_errors=True)


def C02(c):
    deep = c.tier == "thorough"
    base_opts = optset(lambda o: not o["p"] and not o["s"])
    cls = ["code", "script", "empty", "plain", "error"]
    jobs = [dict(module="FileFlow", cfg="FileFlow", timeout=1800, workers=4,      # the design: all crashes and single faults
                 consts=consts(2 if deep else 2, exts=(".txt",), kinds=("gt", "plain"), classes=["code", "plain", "error"] if not deep else cls,
                               names=("f1", "f2"), opts=base_opts, faults=1, emit=False)),
            dict(module="FileFlow", cfg="FileFlowGen", consts=consts(1, exts=(".txt", ""), kinds=("gt", "template", "plain"), classes=cls, opts=base_opts)),
            sim(900 if deep else 220, SEED, files=3, classes=["code", "code", "script", "empty", "plain", "error"], opts=base_opts)]
    res = tlc_many(jobs)
    c.model(res[0])
    c.actions(res[0].coverage)
    recs = [r for r in sample(res[1].records, 2000 if deep else 250) + res[2].records if any(f["written"] for f in r["files"])]
    exe, tr = cli(), tracer()
    with ThreadPoolExecutor(NCPU) as ex:
        clean = list(ex.map(lambda x: faulty_run(exe, x[1], x[0], 0, "none"), enumerate(recs)))
        todo = []
        for n, (rec, r) in enumerate(zip(recs, clean)):
            c.count(1, commands=1)
            what = "no answer after 60 s" if r is None else difference(expected(rec), r["tree"])
            if what:
                c.violation(what, describe(rec, []))
                continue
            for op in r["ops"]:
                acts = ["kill", "E28" if (n + op["n"]) % 2 else "E13"]
                if op["op"] == "write":
                    acts += ["short", "half28"]
                if deep:
                    acts += ["E5"]
                todo += [(exe, rec, n, op["n"], a) for a in acts]
        runs = list(ex.map(lambda x: (x[1], faulty_run(*x)), todo))
    obs, ran, kinds = [], [], {}
    for rec, r in runs:
        c.count(1, faulty_runs=1)
        if r is None:
            c.violation("no answer after 60 s", describe(rec, []))
            continue
        killed = r["action"] in ("kill", "short")
        key = "%s on %s" % (r["action"], r["op"]["op"] if r["op"] else "?")
        kinds[key] = kinds.get(key, 0) + 1
        obs.append(dict(files=[{k: f[k] for k in ("k", "e", "cls", "m", "d", "n", "dest", "orig", "h")} for f in rec["files"]], opts=rec["opts"],
                        init={p: dict(c=t, m=m) for p, t, m in rec["init"]},
                        fs={p: dict(c=token_of(t, p, rec), m=m) for p, (t, m) in r["tree"].items()},
                        pc="killed" if killed else "end", exit=r["code"]))
        ran.append((rec, r, killed))
    c.cov["faults"] = kinds
    if not obs:
        raise CheckError("no faulty run")
    verdicts = []
    step = 1500
    jobs = [dict(module="FileFlowObs", cfg="FileFlowObs", consts=consts(emit=False), files={"obs.json": json.dumps(obs[k:k + step])}, workers=2)
            for k in range(0, len(obs), step)]
    for k, r in zip(range(0, len(obs), step), tlc_many(jobs)):
        if len(r.records) != len(obs[k:k + step]):
            raise CheckError("TLC judged %d observations of %d" % (len(r.records), len(obs[k:k + step])))
        verdicts += [(k + x["o"] - 1, x["v"]) for x in r.records]
        c.model(r)
    for o, v in verdicts:
        rec, r, killed = ran[o]
        info = dict(describe(rec, r["args"]), fault=r["action"], operation=r["op"], exit=r["code"], stderr=r["stderr"],
                    operations=[[x["op"], x["path"], x.get("path2"), x["note"]] for x in r["ops"]], tree={p: t["c"] for p, t in obs[o]["fs"].items()})
        for x in v:
            c.violation("%s after %s at operation %s" % (x, r["action"], r["k"]), info)
        if killed or v:
            continue
        # one operation failed: the other files are as in an undisturbed run
        want, got = expected(rec), r["tree"]
        wrong = []
        for f in rec["files"]:
            if any(want.get(p) != got.get(p) for p in (f["src"], f["dst"], f["orig_"])):
                wrong.append(f["src"])
        if len(wrong) > 1:
            c.violation("a single failing operation (%s) disturbed several files: %s" % (r["action"], wrong), info)
        if r["code"] not in (0, 1) and r["op"] and r["op"]["note"] == "injected":
            c.violation("the failure of an operation was not handled: exit code %d" % r["code"], info)
    c.sample(dict(describe(ran[0][0], ran[0][1]["args"]), fault=ran[0][1]["action"], operation=ran[0][1]["op"], tree=obs[0]["fs"]))
    c.assumptions += ["the content written before a kill is in the page cache (no power failure)", "a failing operation has no partial effect, except writes"]
