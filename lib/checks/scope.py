"""C13 (Scope): programs of the specification evaluated by ProcessContent, with extension files and files to include."""
import random
from common import *

SOFT = ['{{ default "-" $.%(v)s }}', '{{ get $ "%(v)s" "-" }}', '{{ if $.%(v)s }}{{ $.%(v)s }}{{ else }}-{{ end }}', '{{ with $.%(v)s }}{{ . }}{{ else }}-{{ end }}',
        '{{ if hasKey $ "%(v)s" }}{{ $.%(v)s }}{{ else }}-{{ end }}', '{{ iif (isNil $.%(v)s) "-" $.%(v)s }}', '{{ if isSet $.%(v)s }}{{ $.%(v)s }}{{ else }}-{{ end }}']
SETS = ['{{ set $ "%(v)s" %(n)d }}', '{{ $changed := $.Set "%(v)s" %(n)d }}', '{{ $ignored := set $ "%(v)s" %(n)d }}']


class Printer:
    """Text of a program."""
    def __init__(self, rec, variant):
        self.rec, self.n = rec, variant

    def pick(self, choices):
        self.n += 1
        return choices[(self.n * 7919 >> 3) % len(choices)]

    def expr(self, e):
        return "(default %d $.%s)" % (e["c"], e["v"]) if e["v"] else str(e["c"])

    def call(self, s):
        u = self.rec["units"][s["u"] - 1]
        name = "u%d" % s["u"]
        if s["form"] == "action":
            return '{{ template "%s" $ }}' % name
        args = dict(none="", dot=" $", dict=" (dict%s)" % "".join(' "%s" %s' % (k, self.expr(e)) for k, e in (s["m"] or {}).items()),
                    pos="".join(" " + self.expr(e) for e in s["a"]))[s["form"]]
        if u["kind"] in ("alias", "local", "func"):
            source = name
        elif u["kind"] == "text":
            source = "include " + json.dumps(self.body(u["body"]) + "{{ `` }}")
        elif u["kind"] == "file":
            source = 'include "%s.inc"' % name
        else:
            source = 'include "%s"' % name
        return self.pick(["{{ %s%s }}", "{{ $r := %s%s }}{{ $r }}", "{{ print (%s%s) }}"]) % (source, args)

    def statement(self, s):
        k = s["k"]
        if k in ("call", "guard"):
            t = self.call(s)
            if k == "guard":
                t = "{{ if gt (default 0 $.%s) 4 }}%s{{ end }}" % (s["v"], t)
            return "{{ range until %d }}%s{{ end }}" % (s["rep"], t) if s["rep"] > 1 else t
        if k == "set":
            return self.pick(SETS) % s
        if k == "setd":
            return '{{ set $.d "k" %d }}' % s["n"]
        return "[%s]" % dict(soft=self.pick(SOFT) % s, plain="{{ $.%s }}" % s["v"], args="{{ range $.ARGS }}{{ . }},{{ end }}", getd="{{ $.d.k }}",
                             keys='{{ range $k, $v := $ }}{{ if list "v1" "x" "y" "z" | has $k }}{{ $k }}={{ $v }},{{ end }}{{ end }}')[k]

    def body(self, body):
        return "".join(self.statement(s) for s in body)

    def files(self):
        """Extension file, files to include and content."""
        ext, files, content = "", {}, ""
        for i, u in enumerate(self.rec["units"]):
            name, text = "u%d" % (i + 1), self.body(u["body"])
            if u["kind"] == "define":
                content += '{{ define "%s" }}%s{{ end }}' % (name, text)
            elif u["kind"] == "ext":
                ext += '{{ define "%s" }}%s{{ end }}\n' % (name, text)
            elif u["kind"] == "file":
                files[name + ".inc"] = text + "{{ `` }}"
            elif u["kind"] != "text":
                text = "echo '%s'" % text if u["fn"] == "run" else text + "{{ `` }}"
                how = self.pick(["text", "ext", "file"])
                if how == "ext":
                    ext += '{{ define "%s-body" }}%s{{ end }}\n' % (name, text)
                    source = json.dumps(name + "-body")
                elif how == "file":
                    files[name + ".body"] = text
                    source = json.dumps(name + ".body")
                else:
                    source = json.dumps(text)
                values = "(dict%s)" % "".join(' "%s" %d' % kv for kv in (u["dm"] or {}).items())
                if u["kind"] == "func":
                    config = [self.pick(["args", "a", "arguments"]), "(list%s)" % "".join(' "%s"' % x for x in u["names"])] if u["names"] or self.n % 2 else []
                    config = ['"%s" %s' % tuple(config)] if config else []
                    if u["dm"]:
                        config.append('"%s" %s' % (self.pick(["def", "default", "defaults"]), values))
                    ext += '{{ func "%s" "%s" %s (dict %s) }}\n' % (name, u["fn"], source, " ".join(config))
                else:
                    args = "".join(" %d" % x for x in u["da"]) + (" " + values if u["dm"] else "")
                    ext += '{{ %s "%s" "%s" %s%s }}\n' % ("alias" if u["kind"] == "alias" else "localAlias", name, u["fn"], source, args)
        return ext, files, content + self.body(self.rec["main"])


def C13(c):
    deep = c.tier == "thorough"
    K = lambda u, b, m, sim: dict(MaxUnits=u, MaxBody=b, MaxMain=m, Sim=sim, Emit="TRUE")
    jobs = [dict(module="Scope", cfg="Scope", consts=K(1, 2, 4, "FALSE"), timeout=900)]
    jobs += [dict(module="Scope", cfg="Scope", simulate=(6000 if deep else 700), depth=600, seed=SEED * 1000 + i, timeout=900,
                  consts=K((2, 4, 6, 3)[i % 4], (3, 4, 5, 6)[i % 4], (4, 6, 8, 10)[i % 4], "TRUE")) for i in range(8 if deep else 4)]
    res = tlc_many(jobs)
    c.model(res[0])
    recs = res[0].records
    c.cov["exhaustive_programs"] = len(recs)
    recs = random.Random(SEED).sample(recs, min(len(recs), 6000 if deep else 1500)) + [x for r in res[1:] for x in r.records]
    d = mkdir("scope")
    cases, wants = [], []
    for n, rec in enumerate(recs):
        rec = json.loads(json.dumps(rec))
        folder = os.path.join(d, "c%d" % n)
        os.makedirs(folder)
        ext, files, content = Printer(rec, SEED + n * 31).files()
        ctx = dict(rec["init"] or {}, d=dict(k=5))
        by_ext = [k for k in rec["init"] or {} if (n + ord(k[0])) % 4 == 0]        # values that are given by the extension
        ext += "".join('{{ set . "%s" %d }}\n' % (k, ctx[k]) for k in by_ext)
        for name, text in dict(files, **({"0.gte": ext} if ext else {})).items():
            with open(os.path.join(folder, name), "w") as f:
                f.write(text)
        cases.append(dict(ctx={k: v for k, v in ctx.items() if k not in by_ext}, kind=("", "json", "yaml", "hcl")[n % 4], folder=folder, opts=dict(AcceptNoValue=True) if rec["accept"] else {}, texts=[dict(name=folder + "/main.gt", text=content)]))
        wants.append((rec, "".join("[%s]" % x for x in rec["out"]), ctx, ext, files, content))
    for case, (rec, want, ctx, ext, files, content), a in zip(cases, wants, run_harness("tpl", cases)):
        c.count(1)
        r = a[0] if isinstance(a, list) else dict(panic=a["crash"])
        got = r.get("out", "").replace("\n", "")
        bad = None
        if r.get("panic"):
            bad = "panic: " + r["panic"]
        elif rec["status"] == "error":
            bad = None if r.get("err") else "an undefined value is accepted: %s" % got
        elif r.get("err"):
            bad = "failed: " + r["err"]
        elif got != want:
            bad = "gave %s instead of %s" % (got, want)
        else:
            after = {k: v for k, v in json.loads(r["ctx"]).items() if k in ctx or k in ("x", "y", "z", "v1", "ARGS", "_")} if r.get("ctx") else ctx
            if after != ctx:
                bad = "altered the initial context: %s instead of %s" % (after, ctx)
        if bad:
            c.violation("%s (extension %r, files %r, context %s) %s" % (content, ext, files, ctx, bad), dict(content=content, extension=ext, files=files, context=ctx, got=r, expected=want, program=rec))
    c.sample(dict(zip(("expected", "context", "extension", "files", "content"), wants[-1][1:])))
    shutil.rmtree(d)
