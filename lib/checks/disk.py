"""C25 (Disk): behaviours of the machine on trees replayed through the functions on files, in scratch folders."""
import random, stat
from common import *

def modes(v):
    return ("d" if v[0] == "dir" else "-") + "".join(c if v[1] >> (8 - i) & 1 else "-" for i, c in enumerate("rwxrwxrwx"))


def listed(s):
    try:
        return json.loads(s)
    except ValueError:
        return s


def create(root, nodes):
    for n in sorted(nodes, key=lambda n: len(n["p"])):
        p, n = os.path.join(root, *n["p"]), n["n"]
        if n["k"] == "dir":
            os.mkdir(p, 0o755)
            os.chmod(p, 0o755)
        elif n["k"] == "link":
            os.symlink(os.path.join(root, *n["to"]), p)
        else:
            with open(p, "w") as fd:
                fd.write(n["text"])
            os.chmod(p, n["mode"])


def content(root):
    res = {}
    for folder, dirs, files in os.walk(root):
        for f in dirs + files:
            p = os.path.join(folder, f)
            key, st = os.path.relpath(p, root), os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                res[key] = ["link", os.path.relpath(os.readlink(p), root)]
            elif stat.S_ISDIR(st.st_mode):
                res[key] = ["dir", stat.S_IMODE(st.st_mode)]
            else:
                with open(p, newline="", errors="replace") as fd:
                    res[key] = ["file", stat.S_IMODE(st.st_mode), fd.read()]
    return res


def wanted(nodes):
    res = {}
    for n in nodes:
        k, n = "/".join(n["p"]), n["n"]
        res[k] = ["link", "/".join(n["to"])] if n["k"] == "link" else ["dir", n["mode"]] if n["k"] == "dir" else ["file", n["mode"], n["text"]]
    return res


class Writer:
    def __init__(self, rng):
        self.rng, self.ctx = rng, {}

    def path(self, p):
        """The path, spelled in several ways"""
        way = self.rng.randint(0, 4)
        q = [json.dumps(x, ensure_ascii=False) for x in p]
        if way == 0 and q:
            return '(joinPath $.root %s)' % " ".join(q)
        if way == 1:
            return '(joinPath $.root "." "x" ".." "" %s)' % json.dumps("/".join(p), ensure_ascii=False)
        if way == 2:
            return '(String (joinPath $.root %s))' % " ".join(q) if q else "$.root"
        return '(print $.root %s)' % json.dumps("".join("/" + x for x in p), ensure_ascii=False)

    def text(self, p):
        return self.path(p).replace("(String ", "(print ")       # (native texts)

    def step(self, s):
        o, pick = s["o"], self.rng.choice
        if o == "save":
            name = pick(["save", "write", "writeTo"])
            obj = json.dumps(s["x"], ensure_ascii=False)
            if "@" in obj or self.rng.random() < 0.3:
                key = "t%d" % len(self.ctx)
                self.ctx[key] = s["x"]
                obj = "$." + key
            if s["x"] == "12":
                obj = pick([obj, "12", "(int 12)"])
            return pick(["%(n)s %(p)s %(x)s", "%(x)s | %(n)s %(p)s"]) % dict(n=name, p=self.text(s["p"]), x=obj)
        if o == "copy":
            src = self.text(s["ps"][0])
            return "%s %s (%s)" % (pick(["save", "writeTo"]), self.text(s["p"]), pick(["load %s true", "load %s", "%s | readFrom"]) % src)
        if o == "glob":
            items = " ".join(self.path(p) for p in s["ps"])
            return "toJson (%s %s)" % (pick(["glob", "expand"]), items)
        p = self.path(s["p"])
        if o == "load":
            return pick(["load %s", "read %s", "readFrom %s", "load %s false"]) % self.text(s["p"])
        if o == "mode":
            return pick(["mode " + p, "fileMode " + p, "(stat %s).Mode" % self.text(s["p"]), "%s | mode" % p])
        if o == "size":
            return pick(["size " + p, "fileSize " + p, "(fileStat %s).Size" % self.text(s["p"])])
        if o == "isDir":
            return pick(["isDir " + p, "isDirectory " + p, "isFolder " + p, "(stat %s).IsDir" % self.text(s["p"])])
        if o == "exists":
            return pick(["exists", "fileExists", "isExist"]) + " " + p
        return o + " " + p


def shown(s, root):
    if s["o"] in ("save", "copy"):
        return ""
    if s["o"] == "mode":
        return modes(s["v"])
    if s["o"] == "size":
        return str(len(s["v"].encode()))
    if s["o"] == "load":
        return s["v"]
    if s["o"] == "glob":
        return ["/".join([root] + p) for p in s["v"]]
    return "true" if s["v"] else "false"


def C25(c):
    deep = c.tier == "thorough"
    modes_ = "{420, 493, 384, 292, 146, 73, 63, 511}"
    texts = '{"", "t", "two\\nlines\\n", "é", "12", "[1 2]", "{{ 1 }}@x%d\\\\"}'
    names = '{".h", "a", "ab", "b", "é"}'
    jobs = [dict(module="Disk", consts=dict(Names='{"a", "b"}', Contents='{"t"}', Modes="{420}", MaxNodes=n, MaxSteps=k, Sim="FALSE", Emit=e), heap="8g", timeout=800)
            for n, k, e in ([(2, 1, "TRUE"), (3, 1, "FALSE"), (1, 2, "FALSE")] if deep else [(2, 1, "TRUE")])]
    count = len(jobs)
    jobs += [dict(module="Disk", simulate=8000 if deep else 1500, depth=60, seed=SEED * 1000 + i, coverage=False,
                  consts=dict(Names=n, Contents=texts, Modes=modes_, MaxNodes=m, MaxSteps=12, Sim="TRUE", Emit="TRUE"))
             for i, (n, m) in enumerate([('{"a", "b"}', 4), (names, 8), (names, 14), ('{"a", "ab", "b"}', 7)])]
    res = tlc_many(jobs)
    for r in res[:count]:
        c.model(r)
    rng = random.Random(SEED)
    # (part of the exhaustive behaviours are executed in quick)
    first = res[0].records
    seen, hists = set(), []
    for records in [first if deep or len(first) < 12000 else rng.sample(first, 12000)] + [r.records for r in res[count:]]:
        for h in records:
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                hists.append(h)
    rng.shuffle(hists)
    c.cov["behaviours"] = len(hists)
    base = os.path.join(mkdir("disk"), "t")
    os.mkdir(base)
    ops, work = {}, []
    for n, h in enumerate(hists):
        root = os.path.join(base, str(n))
        os.mkdir(root, 0o755)
        create(root, h["initial"] or [])
        w = Writer(rng)
        codes = ["{{ %s }}" % w.step(s).replace("$.", "$.n%d." % (n % 50)) for s in h["hist"]]
        work.append((h, root, codes, dict(w.ctx, root=root)))
        for s in h["hist"]:
            k = s["o"] + ("" if s["ok"] else " (error)")
            ops[k] = ops.get(k, 0) + 1
    c.cov["operations"] = dict(sorted(ops.items()))
    groups = [work[i:i + 50] for i in range(0, len(work), 50)]
    cases = [dict(ctx={"n%d" % i: w[3] for i, w in enumerate(g)}, shared=True, kind=rng.choice(["json", "", "hcl", "yaml", "native"]),
                  texts=[dict(name="x%d_%d.gt" % (i, j), text=code) for i, w in enumerate(g) for j, code in enumerate(w[2])],
                  **{"global": rng.choice(["base", "json", "yaml", "hcl"])}) for g in groups]
    for g, case, answers in zip(groups, cases, run_harness("tpl", cases)):
        if isinstance(answers, dict):
            c.violation("crash", dict(answer=answers, case=case))
            continue
        answers = list(answers)
        for h, root, codes, ctx in g:
            c.count()
            a, answers = answers[:len(codes)], answers[len(codes):]
            what, bad = [[s["o"], "/".join(s["p"])] + (["/".join(p) for p in s["ps"]] or [s["x"]]) for s in h["hist"]], None
            for i, (s, r) in enumerate(zip(h["hist"], a)):
                want = shown(s, root) if s["ok"] else None
                got = r.get("out")
                if r.get("panic"):
                    bad = "panic " + r["panic"][:300]
                elif not s["ok"]:
                    bad = None if r.get("err") else "gives %r instead of an error" % got
                elif r.get("err"):
                    bad = "error " + r["err"][:300]
                elif (listed(got) if s["o"] == "glob" else got) != want:
                    bad = "gives %r instead of %r" % (got, want)
                if bad:
                    bad = "step %d %s: %s" % (i, what[i], bad)
                    break
            if not bad:
                now, then = content(root), wanted(h["final"] or [])
                if now != then:
                    bad = "after %s the tree is %s instead of %s" % (what, json.dumps(now, ensure_ascii=False)[:500], json.dumps(then, ensure_ascii=False)[:500])
            if bad:
                c.violation(bad + " from " + json.dumps(wanted(h["initial"] or []), ensure_ascii=False)[:400], dict(behaviour=h, texts=codes, kind=case["kind"], got=a))
    for h, root, codes, ctx in (work[-1], work[0]):
        c.sample(dict(texts=codes, expected=h))
