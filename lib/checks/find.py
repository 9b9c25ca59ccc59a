"""C14 (Find): trees and searches of the specification executed by FindFilesMaxDepth and by the command."""
import random
from common import *

ROOTS = ["root", "r[o]ot", "r*t", "r{o}t", "ro?t", "r o\\t"]
ID = re.compile(r"<id(\d+)>")


def build(d, rec, n):
    """Creates the tree; returns the paths of the folders and the names of the files by id."""
    base = os.path.join(d, "t%d" % n)
    paths = []
    for x in rec["dirs"]:
        paths.append(os.path.join(paths[x["p"] - 1], x["n"]) if x["p"] else os.path.join(base, ROOTS[n % len(ROOTS)]))
        os.makedirs(paths[-1])
    os.makedirs(base + "/aside")
    for i, f in enumerate(rec["files"]):
        p = os.path.join(paths[f["d"] - 1], f["n"])
        if f["l"]:
            os.symlink(os.path.join(base, "aside", "file%d" % i), p)
            p = os.path.join(base, "aside", "file%d" % i)
        with open(p, "w") as h:
            h.write('{{ "<" }}id%d>' % i)
    for i, l in enumerate(rec["links"]):
        at, to = paths[l["d"] - 1], paths[l["t"] - 1]
        os.symlink(os.path.relpath(to, at) if i % 2 else to, os.path.join(at, l["n"]))
    for i, p in enumerate(paths):
        os.symlink(p, os.path.join(base, "via%d" % (i + 1)))
    return base, paths


def escape(s):
    return re.sub(r"([\\*?\[{}])", r"\\\1", s)


def C14(c):
    deep = c.tier == "thorough"
    K = lambda d, f, l, q, runs, sim: dict(MaxDirs=d, MaxFiles=f, MaxLinks=l, MaxQueries=q, Runs=runs, Sim=sim, Emit="TRUE")
    jobs = [dict(module="Find", cfg="Find", consts=K(4 if deep else 3, 0, 2 if deep else 2, 1, "FALSE", "FALSE"), timeout=900),
            dict(module="Find", cfg="FindLive", consts=dict(K(3, 0, 2, 1, "FALSE", "FALSE"), Emit="FALSE"), timeout=900)]
    jobs += [dict(module="Find", cfg="Find", simulate=(2500 if deep else 160), depth=200, seed=SEED * 1000 + i, timeout=900,
                  consts=K((6, 10, 14, 4)[i % 4], (10, 16, 24, 12)[i % 4], (3, 6, 8, 2)[i % 4], 6, "TRUE", "TRUE")) for i in range(8 if deep else 5)]
    res = tlc_many(jobs)
    c.model(res[0])
    c.model(res[1])
    bfs = {}
    for r in res[0].records:                              # the queries of a tree are grouped
        k = json.dumps([r["dirs"], r["files"], r["links"]], sort_keys=True)
        bfs.setdefault(k, dict(r, hist=[]))["hist"] += r["hist"]
    c.cov["exhaustive_trees"] = len(bfs)
    trees = list(bfs.values())
    trees = random.Random(SEED).sample(trees, min(len(trees), 4000 if deep else 500)) + [x for r in res[2:] for x in r.records]
    d = mkdir("find")
    api, runs = [], []
    for n, rec in enumerate(trees):
        base, paths = build(d, rec, n)
        qs = []
        for h in rec["hist"]:
            q = h["q"]
            start = os.path.join(base, "via%d" % q["start"]) if q["via"] else paths[q["start"] - 1]
            if q["run"]:
                runs.append((rec, h, base, paths, start, len(runs)))
            else:
                qs.append((dict(dir=start, max=q["max"], follow=q["follow"], patterns=q["pats"]), h))
        if qs:
            api.append((rec, qs, paths))
    describe = lambda rec, paths: dict(folders=paths, files=["%s%s" % (os.path.join(paths[f["d"] - 1], f["n"]), " (link)" if f["l"] else "") for f in rec["files"]],
                                       links=["%s -> %s" % (os.path.join(paths[l["d"] - 1], l["n"]), paths[l["t"] - 1]) for l in rec["links"]])
    where = lambda rec, paths, found: sorted(os.path.join(paths[f["d"] - 1], f["n"]) for f in found)
    for (rec, qs, paths), a in zip(api, run_harness("find", [dict(queries=[q for q, _ in x[1]]) for x in api])):
        if isinstance(a, dict):
            a = [dict(err=a["crash"], files=None)] * len(qs)
        for (q, h), got in zip(qs, a):
            c.count(1)
            want = where(rec, paths, h["found"])
            files = [os.path.join(os.path.realpath(os.path.dirname(f)), os.path.basename(f)) for f in got["files"] or []]
            bad = dict(describe(rec, paths), query=q, got=got, expected=want)
            if got["err"] or sorted(files) != want:
                twice = sorted(set(f for f in files if files.count(f) > 1))
                c.violation("FindFilesMaxDepth(%s) gave %s: missing %s, unexpected %s, repeated %s" % (
                    q, got["err"] or "%d files" % len(files), sorted(set(want) - set(files)), sorted(set(files) - set(want)), twice), bad)
    exe = cli()

    def one(x):
        rec, h, base, paths, start, n = x
        q = h["q"]
        args, env = [], go_env(dict(GOTEMPLATE_NO_STDIN="1"))
        cwd = start if n % 2 else base
        if cwd == base:
            args += ["--source", start if n % 4 else os.path.relpath(start, base)]
        env.update(PWD=cwd, TMPDIR=base)
        sep = (",", ", ", " , ", " ,")[n % 4]
        for p in q["pats"] if n % 3 else [sep.join(q["pats"]) + sep]:
            args += ["-p", p]
        if q["max"]:
            args += ["-r"] if q["max"] > 1000 else ["-R", str(q["max"])]
        if q["follow"]:
            args.append("-f")
        excl = []
        for e in q["excl"]:
            folder = escape(os.path.relpath(paths[e["d"] - 1], paths[0])) if e["d"] else ""
            excl.append({"top": e["p"], "any": "**/" + e["p"], "under": folder + "/**", "in": folder + "/" + e["p"]}[e["k"]])
        if n % 2 and not any("," in e for e in excl):
            excl = [sep.join(excl) + sep] if excl else []
        for e in excl:
            args += ["-e", e]
        given = []
        for i, f in enumerate(q["given"]):
            rel = os.path.join(os.path.relpath(paths[f["d"] - 1], paths[0]), f["n"])
            rel = rel[2:] if rel.startswith("./") else rel
            given.append([rel, "./" + rel, os.path.join(start, rel), os.path.join(os.path.realpath(start), rel)][(n + i) % 4])
        args += ["--print"] + given
        p = subprocess.run([exe, "run"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, text=True, env=env, cwd=cwd, timeout=60)
        return x, args, cwd, p
    with ThreadPoolExecutor(NCPU) as ex:
        for (rec, h, base, paths, start, n), args, cwd, p in ex.map(one, runs):
            c.count(1, commands=1)
            got = sorted(int(i) for i in ID.findall(p.stdout))
            want = sorted(i for i, f in enumerate(rec["files"]) if any(f["d"] == g["d"] and f["n"] == g["n"] for g in h["found"]))
            if p.returncode != 0 or got != want:
                name = lambda i: os.path.join(paths[rec["files"][i]["d"] - 1], rec["files"][i]["n"])[len(base) + 1:]
                c.violation("gotemplate %s in %s: missing %s, unexpected %s, repeated %s (exit %d)" % (
                    args, cwd, [name(i) for i in want if i not in got], [name(i) for i in got if i not in want],
                    sorted(set(name(i) for i in got if got.count(i) > 1)), p.returncode),
                    dict(describe(rec, paths), args=args, cwd=cwd, exit=p.returncode, stdout=p.stdout, stderr=p.stderr[-600:]))
    if runs:
        c.sample(dict(describe(runs[0][0], runs[0][3]), query=runs[0][1]["q"]))
    c.sample(dict(describe(api[-1][0], api[-1][2]), query=api[-1][1][-1][0]))
    shutil.rmtree(d)
    c.cov["trees"] = len(trees)
