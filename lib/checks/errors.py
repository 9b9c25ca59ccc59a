"""C04, C05: contents of the Errors specification evaluated by the API and by the command."""
from common import *
import random

CTX = dict(n=0, dict=dict(a=1), null=None, s="str")

# class -> variants (source text, rendered text); I is the number of the line, N the number of updates made before it
PLAIN = {
    "text": [("text I", "text I"), ("", ""), ("  I { } @ }} I", "  I { } @ }} I"), ("mail to me@here.com I", "mail to me@here.com I")],
    "ok": [("o {{ add 1 I }}", "o J"), ("{{- /* I */ -}} o", None), ("{{ $vI := I }}{{ $vI }}", "I"), ("@add(1, I);", "J"), ("@(I + 1)", "J"),
           ("{{ if true }}yI{{ end }}", "yI"), ('{{ define "tI" }}x{{ end }}{{ template "tI" }}', "x")],
    "literal": [("l <no value> I", "l <no value> I"), ("<nil> I <no value><nil>", "<nil> I <no value><nil>"), ('{{ "<no value>" }} <nil>', "<no value> <nil>"),
                ('@("<nil>") I', "<nil> I"), ("{{ if true }}<nil>{{ end }} I", "<nil> I")],
    "protected": [('p {{ default "dI" .missing }}', "p dI"), ('p {{ undef "dI" .missing }}', "p dI"), ('p {{ ifUndef "dI" .null }}', "p dI"),
                  ("p {{ isNil .missing }}", "p true"), ("p {{ isSet .missing }}", "p false"), ("p {{ isEmpty .null }}", "p true"),
                  ("p {{ isZero .null }}", "p true"), ('p {{ .missing | default "dI" }}', "p dI"), ("p {{ if .missing }}y{{ else }}nI{{ end }}", "p nI"),
                  ("p {{ with .null }}y{{ end }} I", "p  I"), ('p {{ coalesce .null "c" }}', "p c"), ('p @undef("dI", .missing)', "p dI"),
                  ('p @default("dI", missing)', "p dI"), ("p {{ range .null }}x{{ else }}eI{{ end }}", "p eI"), ('p {{ iif .missing "a" "bI" }}', "p bI"),
                  ("p {{ not .missing }}", "p true"), ("p {{ or .missing I }}", "p I"), ("p {{ len (list I .null) }}", "p 2")],
    "update": [('u {{ set . "n" (add 1 .n) }}{{ .n }}', "u M"), ('{{ set $ "n" (add 1 $.n) }}u {{ .n }} I', "u M I")],
}
PARSE = [("f {{ undefinedFunction I }}", "undefinedFunction"), ("f {{ 1aI }}", "bad number"), ("f {{ add I ) }}", "paren"), ("f {{ ( add I }}", "paren"),
         ('f {{ "I }}', "unterminated"), ("f {{ .a..I }}", "unexpected"), ("f {{ $x := }} I", "missing value"), ("f {{ ! I }}", "unexpected"),
         ("f @undefinedFunction(I)", "undefinedFunction"), ("f {{ template .x }} I", "template clause"), ("f {{ I | nothing | other }}", "nothing"),
         ("{{ if true }}{{ nothing }}{{ end }} I", "nothing"), ("f {{ $undefinedVariable }} I", "undefinedVariable"), ('f {{ "ok" }}{{ nothing "<nil>" I }}', "nothing")]
EXEC = [('f {{ raise "boom I" }}', "boom I"), ('f {{ fail "lost I" }}', "lost I"), ('f {{ assert false "nope I" }}', "nope I"), ("f {{ div I 0 }}", "division by 0"),
        ("f {{ index (list 1) 9I }}", "out of range"), ('f {{ template "noneI" }}', "noneI"), ("f {{ .dict.a.b }} I", "can't evaluate"), ('f @raise("razor I")', "razor I"),
        ('f {{ raise (print "n=" (get . "n")) }} I', "n=N"), ("{{ if true }}{{ div I 0 }}{{ end }}", "division by 0"), ('{{ "a" }}{{ raise "two {{ I" }}', "two {{ I"),
        ("f @(I / 0)", "division by 0"), ('{{ range list 1 2 }}{{ if eq . 2 }}{{ raise "second I" }}{{ end }}{{ end }}', "second I")]
UNDEF = [("n {{ .missing }}", "n <no value>"), ("n {{ .null }} I", "n <no value> I"), ('{{ get . "missing" }} n', "<no value> n"), ('n {{ printf "%v" .missing }}', "n <nil>"),
         ("n {{ .dict.missing }}", "n <no value>"), ("n @missing;", "n <no value>"), ("n {{ print .null }}", "n <nil>"), ('n {{ index .dict "z" }}', "n <no value>"),
         ("n @(missing) I", "n <no value> I"), ("n {{ $m := .missing }}{{ $m }}", "n <no value>"), ("n {{ first (list) }}", "n <no value>"),
         ("n {{ range list I .null }}{{ . }},{{ end }}", "n I,<no value>,"), ("n <nil> {{ .missing.sub }} <no value>", "n <nil> <no value> <no value>"), ('n {{ concat .null "a" }}', "n <nil>a")]
NESTED = [('{{ $c := include "c {{ .missing }} I" }}k I', "k I"), ('{{ $c := include "{{ print $.null }} I" }}k', "k"), ('n{{ contains "zz" (include "a {{ print $.null }} I") }}', "nfalse"),
          ('{{ define "nI" }}b {{ print $.null }}{{ end }}{{ $c := include "nI" }}k', "k"), ('k {{ len (include "{{ $.null }}x") }}', "k 11"), ('{{ $c := include "{{ print $.null }}\\n{{ $.missing }}" }}k I', "k I"),
          ('k {{ include "{{ print $.null }}" | len }}', "k 5"), ('{{ set $ "kI" (include "{{ list I $.null | first }}{{ last (list I $.null) }}") }}k', "k")]
BLOCKS = {"if1": ["{{ if true }}", "@if (1 < 2)", '{{ with "x" }}{{ if true }}'], "if0": ["{{ if false }}", "@if (1 > 2)", "{{ with .null }}"],
          "range2": ["{{ range list 7 8 }}", "{{ range $k, $v := list 7 8 }}"], "range0": ["{{ range list }}", "{{ range .null }}"]}
STOPS = {"stopend": "{{ end }}", "stopelse": "x {{ else }}", "stopbreak": "{{ break }} y"}
NAMES = {"ordinary": ["case.txt", "case", "case.tf", "dir.gt/case.json", "case.g", "case.t", "case.te", "case.gt.bak", "case.templates", "x.gt~"], "gt": ["case.gt", "a.b.gt"], "template": ["case.template", "sub/case.txt.template"], "gte": ["case.gte"],
         "strict": ["case.txt", "case"], "marked": ["case.txt", "case.md"]}


def build(rec, rng):
    """-> source lines, rendering of each line (function of the number of updates), expected message of each faulty line"""
    src, ren, msg, stack = [], [], {}, []
    for i, c in enumerate(rec["lines"], 1):
        sub = lambda t: t.replace("I", str(i)).replace("J", str(i + 1))
        if c in PLAIN:
            while True:
                s, r = rng.choice(PLAIN[c])
                if r is not None and not (stack and "define" in s):
                    break
        elif c == "parse":
            s, m = rng.choice(PARSE)
            r, msg[i] = "", sub(m)
        elif c == "nested":
            s, r = rng.choice([x for x in NESTED if not (stack and "define" in x[0])])
            msg[i] = "contains undefined value"
        elif c == "exec":
            s, m = rng.choice(EXEC)
            r, msg[i] = "", sub(m)
        elif c == "undef":
            s, r = rng.choice(UNDEF)
        elif c in BLOCKS:
            s = rng.choice([b for b in BLOCKS[c] if "}}{{" not in b])
            # inside of a range or with, the dot is something else: the lines below use $
            stack.append(s)
            r = ""
        elif c == "else":
            s, r = ("@else", "") if stack[-1].startswith("@") else ("{{ else }}", "")
        elif c == "end":
            b = stack.pop()
            s, r = ("@end if" if b.startswith("@") else "{{ end }}"), ""
        elif c in STOPS:
            s, r = STOPS[c], ""
        s = sub(s)
        if any("range" in b or "with" in b for b in stack):
            s = re.sub(r"(?<![\w.}\"$])\.(missing|null|dict|n)\b", r"$.\1", s).replace("set . ", "set $ ").replace("get . ", "get $ ")
        src.append(s)
        ren.append(sub(r))
    return src, ren, msg


def text_of(rec, ren, nl):
    """The rendered text: an executed line gives its text and a newline (the last one has none)"""
    res = ""
    last = len(rec["lines"])
    for o in rec["out"]:
        t = ren[o["l"] - 1].replace("M", str(o["n"] + 1)).replace("N", str(o["n"]))
        res += t + ("" if o["l"] == last and not nl else "\n")
    return res


REPORT = re.compile(r"^(\S*?):(\d+)(?::\d+)?: (.*?)(?: in: (.*))?$")


def judge(rec, src, ren, msg, nl, name, text, got):
    """None or the description of the difference; got: dict(out, err)"""
    outcome = rec["outcome"]
    err = got.get("err", "")
    if outcome == "unchanged":
        if err:
            return "an error is returned for an ordinary file: %r" % err
        return None if got["out"] == text else "the content %r of an ordinary file in error became %r" % (text, got["out"])
    if outcome == "rendered":
        want = text_of(rec, ren, nl)
        if err:
            return "error %r" % err
        return None if got["out"] == want else "rendered %r instead of %r" % (got["out"], want)
    if not err:
        return "no error is returned (result %r)" % got["out"]
    if rec["undefined"] and not rec["reports"]:
        if "contains undefined value(s)" not in err:
            return "undefined values are reported as %r" % err
        body = "\n".join(err.split("\n")[1:])
        shown = "\n".join(re.sub(r"^ *\d+ ?", "", x) for x in body.split("\n"))
        want = text_of(rec, ren, nl)
        return None if shown.rstrip("\n") == want.rstrip("\n") else "the text with undefined values is shown as %r instead of %r" % (shown, want)
    lines = err.split("\n")
    if rec["blocked"]:
        if "Unable to continue" not in lines[-1]:
            return "the report %r does not say that it is not complete" % err
        lines = lines[:-1]
    seen = {}
    for x in lines:
        m = REPORT.match(x)
        if not m or m.group(1) != name:
            return "report %r in %r" % (x, err)
        seen.setdefault(int(m.group(2)), []).append((m.group(3), m.group(4)))
    want = {r["l"]: r for r in rec["reports"]}
    if set(seen) != set(want):
        return "lines %s are reported instead of %s: %r" % (sorted(seen), sorted(want), err)
    for l, items in seen.items():
        if len(items) > 1 and "$undefinedVariable" not in src[l - 1]:
            return "line %d is reported %d times: %r" % (l, len(items), err)
        for m, s in items:
            if s != src[l - 1]:
                return "line %d is shown as %r instead of %r" % (l, s, src[l - 1])
        if l in msg and msg[l].replace("N", str(want[l]["n"])) not in items[0][0]:
            return "line %d: %r does not contain %r" % (l, items[0][0], msg[l].replace("N", str(want[l]["n"])))
    return None


ALL = dict(Plain=["text", "ok", "literal", "protected", "update"], ParseFaults=["parse"], ExecFaults=["exec", "nested"], Undefined=["undef"],
           Structures=["if1", "if0", "range2", "range0", "else", "end", "stopend", "stopelse", "stopbreak"],
           Kinds=["ordinary", "gt", "template", "gte", "strict", "marked"])


def tset(x):
    return "{" + ", ".join('"%s"' % e if isinstance(e, str) else str(e).upper() for e in x) + "}"


def consts(maxlen, sim=False, minlen=1, accepts=(False,), **kw):
    d = {k: tset(v) for k, v in dict(ALL, **kw).items()}
    d.update(MaxLen=maxlen, MinLen=minlen, Accepts=tset(accepts), Sim=str(sim).upper(), Emit="TRUE")
    return d


# the last line of a marked content and what it gives (None: the result is not compared)
MARKS = [("# force-gotemplate!", "# force-gotemplate!"), ("{{/* force-gotemplate! */}}", ""), ("# @# force-gotemplate!", "# "), (" ## @ force-gotemplate!", None),
         ("{{- /* force-gotemplate! */ -}}", None), ("x force-gotemplate!; y", "x force-gotemplate!; y")]


def prepare(recs, seed):
    rng = random.Random(seed)
    items = []
    for rec in recs:
        src, ren, msg = build(rec, rng)
        nl = rng.random() < 0.6
        lines = list(src)
        name = rng.choice(NAMES[rec["kind"]])
        if rec["kind"] == "marked":
            rec = dict(rec, lines=rec["lines"] + ["text"])
            if rec["out"] or rec["outcome"] == "rendered":
                rec["out"] = rec["out"] + [dict(l=len(rec["lines"]), n=0)]
            mark, shown = rng.choice([m for m in MARKS if m[1] is not None or rec["reports"]])
            lines.append(mark)
            src, ren = lines, ren + [shown]
        text = "\n".join(lines) + ("\n" if nl else "")
        items.append((rec, src, ren, msg, nl, name, text))
    return items


def initial_context():
    """The context of the caller before any evaluation (the constants are added to it when a template is created)."""
    return json.loads(run_harness("tpl", [dict(ctx=CTX, texts=[dict(name="x.gt", text="")])])[0][0]["ctx"])


def run(c, items, deep):
    context = initial_context()
    cases = [dict(ctx=CTX, texts=[dict(name=it[5], text=it[6])], opts=dict(StrictErrorCheck=it[0]["kind"] == "strict", AcceptNoValue=it[0]["accept"])) for it in items]
    ans = run_harness("tpl", cases)
    for it, case, a in zip(items, cases, ans):
        c.count(1, evaluations=1)
        got = a[0] if isinstance(a, list) else dict(panic=a["crash"])
        what = "panic: %s" % got["panic"][:300] if got.get("panic") else judge(it[0], it[1], it[2], it[3], it[4], it[5], it[6], got)
        if not what and json.loads(got["ctx"]) != context:
            what = "the context of the caller became %s" % got["ctx"]
        if what:
            c.violation(what, dict(text=it[6], name=it[5], kind=it[0]["kind"], accept=it[0]["accept"], got=got, model={k: it[0][k] for k in ("lines", "reports", "outcome", "blocked")}))
    c.sample(dict(case=cases[len(cases) // 3], model={k: items[len(cases) // 3][0][k] for k in ("reports", "outcome")}))
    c.sample(dict(case=cases[-1], model={k: items[-1][0][k] for k in ("reports", "outcome")}))


def run_cli(c, items, limit):
    exe = cli()
    picked = [it for it in items if "/" not in it[5] and it[6].strip() and not it[5].endswith(".gte")]
    picked = random.Random(SEED).sample(picked, min(limit, len(picked)))

    def one(it):
        rec, src, ren, msg, nl, name, text = it
        d = mkdir("err")
        work, tmp = os.path.join(d, "w"), os.path.join(d, "tmp")
        os.mkdir(work), os.mkdir(tmp)
        with open(os.path.join(work, name), "w") as f:
            f.write(text)
        args = ["--overwrite"] + ["--var=%s=%s" % (k, json.dumps(v)) for k, v in CTX.items() if v is not None]
        args += (["--strict"] if rec["kind"] == "strict" else []) + (["--accept-no-value"] if rec["accept"] else []) + [name]
        env = go_env(dict(GOTEMPLATE_NO_STDIN="1", TMPDIR=tmp))
        try:
            p = subprocess.run([exe] + args, cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return it, args, "no answer after 60 s", ""
        tree = {f: open(os.path.join(work, f), newline="").read() for f in os.listdir(work)}
        left = os.listdir(tmp)
        shutil.rmtree(d, ignore_errors=True)
        what = None
        if (p.returncode != 0) != (rec["outcome"] == "failed"):
            what = "exit code %d" % p.returncode
        elif left:
            what = "temporary files left: %s" % left
        elif rec["outcome"] == "rendered":
            res = re.sub(r"\.(gt|template)$", "", name)
            want = {res: text_of(rec, ren, nl)}
            if name != res and not os.path.splitext(res)[1] and not want[res].strip():
                want = {name: text}
            if tree != want and not (want.get(res) == text and tree == {name: text}):
                what = "the folder contains %r instead of %r" % (tree, want)
        elif tree != {name: text}:
            what = "the folder contains %r instead of the original %r" % (tree, {name: text})
        if not what and rec["outcome"] == "failed" and rec["reports"]:
            if not all("%s:%d" % (name, r["l"]) in p.stderr for r in rec["reports"]):
                what = "the reports %s are not all displayed" % rec["reports"]
        return it, args, what, p.stderr
    with ThreadPoolExecutor(NCPU) as ex:
        for it, args, what, err in ex.map(one, picked):
            c.count(1, commands=1)
            if what:
                c.violation(what, dict(text=it[6], args=args, stderr=err[-1500:], model={k: it[0][k] for k in ("lines", "reports", "outcome")}))


JUNK = ["{{", "}}", " }}", "{{ ", "{{-", "-}}", "@", "@{", "}", "(", ")", '"', "`", "'", "\n", "end", "if", "if true", "range", "list 1 2", "else", "define \"t\"", "template \"t\"",
        "block \"b\" .", "with 1", "$x", ":=", "= 1", ".a", ".", "|", "raise \"r\"", "div 1 0", "undefinedFunction", "@if (true)", "@end if", "@for (i := range 3)", "@end",
        "@raise(\"x\")", "@$y := 1", "@{z} := 2", "/*", "*/", "#!", "é", "ERROR", "<no value>", "<UNDEF", "break", "continue", "1", ",", "%", "$&", "\\", "text", "\r\n", "\t", "[", "]", "{", "::", "template: x:1: ",
        "executing \"a\" at <b>: c", "//", "@reduce(1)", "@(", "@@", "include \"{{\"", "razor-pause!", "gotemplate-pause!"]


def junk(c, recs, deep):
    """Contents made of any fragments: the evaluation terminates without panic and follows the policy of the kind of file."""
    rng = random.Random(SEED * 77 + 5)
    context = initial_context()
    cases, texts = [], []
    for n in range(len(recs)):
        # the length and the nesting come from the behaviours of the model
        text = "".join(rng.choice(JUNK) + rng.choice(["", "", " "]) for _ in range(len(recs[n]["lines"]) * 2 + rng.randint(0, 6)))
        texts.append(text)
        cases.append(dict(ctx=CTX, texts=[dict(name="x.txt", text=text), dict(name="x.gt", text=text), dict(name="x.gt", text=text)]))
    ans = run_harness("tpl", cases, stall=40)
    for text, a in zip(texts, ans):
        c.count(1, arbitrary_texts=1)
        if not isinstance(a, list):
            c.violation("the evaluation does not end normally: %s" % a["crash"][:300], dict(text=text))
            continue
        o, g, g2 = a
        what = None
        if any(x.get("panic") for x in a):
            what = "panic: %s" % [x.get("panic") for x in a]
        elif o.get("err"):
            what = "an ordinary file returns the error %r" % o["err"]
        elif g.get("err") and o["out"] != text:
            what = "an ordinary file in error became %r" % o["out"]
        elif not g.get("err") and o["out"] != g["out"]:
            what = "%r for an ordinary file and %r for a template" % (o["out"], g["out"])
        elif (g.get("err"), g["out"]) != (g2.get("err"), g2["out"]):
            what = "two evaluations give %r and %r" % (g, g2)
        elif any(json.loads(x["ctx"]) != context for x in a):
            what = "the context of the caller is altered: %s" % a
        if what:
            c.violation(what, dict(text=text, answers=a))


def explore(c, deep, focus):
    both = (False, True)
    if focus == "C04":
        small = consts(4 if deep else 3, Plain=["text", "update"], Undefined=["undef"], Kinds=["ordinary", "gt", "strict"], Structures=["if0", "range2", "end", "stopend"])
        jobs = [dict(module="Errors", cfg="Errors", consts=small, timeout=1200)]
        jobs += [dict(module="Errors", cfg="Errors", simulate=6000 if deep else 900, depth=80, seed=SEED * 100 + k,
                      consts=consts((10, 16, 7)[k], True, minlen=(4, 8, 2)[k], accepts=both, **({} if k else dict(Structures=["if1", "if0", "range2", "range0", "else", "end"]))))
                 for k in range(3)]
    else:
        small = consts(4 if deep else 3, ParseFaults=[], ExecFaults=["nested"], accepts=both, Kinds=["ordinary", "gt"], Structures=["if0", "range2", "end"])
        jobs = [dict(module="Errors", cfg="Errors", consts=small, timeout=1200)]
        jobs += [dict(module="Errors", cfg="Errors", simulate=6000 if deep else 1200, depth=80, seed=SEED * 100 + 50 + k,
                      consts=consts((10, 6)[k], True, minlen=(3, 1)[k], accepts=both, ParseFaults=[["parse"], []][k], ExecFaults=[["nested"], []][k], Structures=["if1", "if0", "range2", "else", "end"]))
                 for k in range(2)]
    jobs.append(dict(module="Errors", cfg="ErrorsLive", consts=dict(consts(3, accepts=(False,), Plain=["text"], Undefined=["undef"], Kinds=["gt"]), Emit="FALSE")))
    res = tlc_many(jobs)
    c.model(res.pop())
    c.model(res[0])
    c.actions(res[0].coverage)
    first = res[0].records
    c.cov["enumerated"] = len(first)
    limit = 60000 if deep else 3500
    if len(first) > limit:
        first = random.Random(SEED).sample(first, limit)
    return first, [r for x in res[1:] for r in x.records]


def C04(c):
    deep = c.tier == "thorough"
    first, sims = explore(c, deep, "C04")
    items = prepare(first + sims, SEED)
    run(c, items, deep)
    run_cli(c, items, 1500 if deep else 250)
    junk(c, (first + sims)[-(20000 if deep else 2500):], deep)
    c.assumptions += ["a line has at most one fault", "faults of the lines opening, dividing or closing a block are excluded, except misplaced keywords which end the recovery"]


def C05(c):
    deep = c.tier == "thorough"
    first, sims = explore(c, deep, "C05")
    items = prepare(first + sims, SEED + 1)
    run(c, items, deep)
    run_cli(c, [it for it in items if not it[0]["reports"]], 1000 if deep else 150)
    c.assumptions += ["the values of the context do not contain the texts <no value> and <nil> themselves"]
