"""C18 (Concurrent): independent templates used by several threads."""
import random
from common import *

DELIMS = [("{{", "}}", "@"), ("[[", "]]", "@"), ("{{", "}}", "§")]
ENV = dict(GORACE="halt_on_error=0 history_size=2")
# contents of each kind (default delimiters) and how their result is normalized
TEXTS = dict(
    value=lambda n: "{{ .x }}|{{ add .x %d }}" % n,
    razor=lambda n: "@x|@(x * %d)" % n,
    assign=lambda n: '{{ set . "y" %d }}{{ .y }}+{{ .x }}' % n,
    fresh=lambda n: "{{ default 0 .y }}+{{ .x }}",
    define=lambda n: '{{ define "t" }}<%d:{{ .x }}>{{ end }}{{ template "t" . }}{{ include "t" . }}' % n,
    alias=lambda n: "{{ who %d }}" % n,
    template=lambda n: '{{ template "ext" . }}',
    undefined=lambda n: "{{ .nope }}%d" % n,
    subst=lambda n: "colour{{ .x }}",
    lists=lambda n: "{{ toJson (append (list 1 %d) .x) }}" % n,
    data=lambda n: '{{ (fromYaml "a: %d").a }}{{ toJson (dict "b" .x) }}' % n,
    nested=lambda n: '{{ include "{{ .x }}" }}-%d' % n,
    file=lambda n: '{{ include "inc.txt" %d }}' % n,
    exec=lambda n: '{{ run "echo out%d" }}-{{ .x }}' % n,
    math=lambda n: "{{ sum .x %d 3 }},{{ max %d 0 }}" % (n, n),
    loop=lambda n: "{{ range $i := until 3 }}{{ add $.x $i }}:{{ end }}",
    literals=lambda n: "@print(`a long text\n; and .\n %d`)|@x" % n,
    describe=lambda n: '{{ (function "upper").Name }}{{ (function "printf").RealName }}{{ (aliases | len) | min 0 }}{{ if print (function "substr") }}%d{{ end }}' % n,
    slice=lambda n: "{{ toJson (slice (list %d .x 7) 0 2) }}" % n,
    format=lambda n: '{{ toYaml (dict "a" .x) }}%d' % n,
    merge=lambda n: '{{ $d := merge (dict "a" %d) (dict "a" 5 "b" .x "c" 1) }}{{ $d.a }}{{ $d.b }}{{ $d.c }}' % n)
BROKEN = ["@(x +) zz{tok}", "{{ nofunc{tok} . }}", '{{ raise "tok{tok}" }}', "{{ if .x }}tok{tok}", '{{ template "none{tok}" }}', '{{ include "inc.txt" 1 }}{{ fromJson "[tok{tok}" }}', "{{ $u{tok} }}"]


def written(text, delims):
    L, R, D = delims
    return text.replace("{{", "\0").replace("}}", "\1").replace("@", D).replace("\0", L).replace("\1", R)


def C18(c):
    deep = c.tier == "thorough"
    rnd = random.Random(SEED)
    K = lambda p, n, rec, sim: dict(Threads=p, MaxOps=n, Record=rec, Sim=sim, Emit=sim)
    jobs = [dict(module="Concurrent", cfg="Concurrent", consts=K(2, 2, "TRUE", "FALSE"), timeout=900),
            dict(module="Concurrent", cfg="ConcurrentLive", consts=K(2, 2, "FALSE", "FALSE"), timeout=900)]
    if deep:
        jobs.append(dict(module="Concurrent", cfg="Concurrent", consts=K(3, 2, "FALSE", "FALSE"), timeout=2400))
    fixed = len(jobs)
    jobs += [dict(module="Concurrent", cfg="Concurrent", simulate=(400 if deep else 40), depth=800, seed=SEED * 1000 + i, timeout=900, consts=K(p, n, "TRUE", "TRUE"))
             for i, (p, n) in enumerate([(4, 5), (8, 4), (3, 9), (6, 6)])]
    res = tlc_many(jobs)
    for r in res[:fixed]:
        c.model(r)
        c.actions(r.coverage)
    recs = [x["events"] for r in res[fixed:] for x in r.records]
    d = mkdir("conc")
    folders = {}
    for ext in range(4):
        for k, dl in enumerate(DELIMS):
            f = folders[ext, k] = os.path.join(d, "e%dd%d" % (ext, k))
            os.makedirs(os.path.join(f, "a/b"))
            for sub in ("", "a", "a/b"):
                with open(os.path.join(f, sub, "inc.txt"), "w") as h:
                    h.write(written("I@x;.{{ index .ARGS 0 }}", dl))
            if ext:
                with open(os.path.join(f, "x.gte"), "w") as h:
                    h.write('{{ alias "who" "include" "K%d:{{ .x }}:{{ index .ARGS 0 }}" }}{{ define "ext" }}E%d:{{ .x }}{{ end }}' % (ext, ext))
    serial = [0]

    def event(e, times):
        own, dl = e["own"], DELIMS[e["own"]["delims"]]
        folder = folders[own["ext"], own["delims"]]
        if e["kind"] == "new":
            r = dict(e="begin", p=e["p"], new=True, ctx=dict(x=own["x"]), folder=folder)
            if own["delims"]:
                r["delims"] = ",".join(dl)
            if own["sub"]:
                r["subs"] = ["/colour/C%d" % own["sub"]]
            r["opts"] = dict(AcceptNoValue=own["novalue"])
            return r, None
        text = TEXTS.get(e["kind"])
        tok = None
        if text:
            text = text(e["n"])
        else:
            serial[0] += 1
            tok = "q%dq" % serial[0]
            text = rnd.choice(BROKEN).replace("{tok}", tok)
        sub = rnd.choice(["", "", "a", "a/b"])
        return dict(e="begin", p=e["p"], text=written(text, dl), name=os.path.join(folder, sub, "f.gt"), times=times), tok
    cases, wants = [], []
    for n, events in enumerate(recs):
        for free in (False, True):
            case, want = dict(threads=max(e["p"] for e in events), free=free, events=[]), []
            for e in events:
                if e["e"] == "end":
                    case["events"].append(dict(e="end", p=e["p"]))
                    want.append(None)
                else:
                    g, tok = event(e, 3 if free and e["kind"] not in ("exec", "broken") else 0)
                    case["events"].append(g)
                    want.append((e, tok))
            cases.append(case)
            wants.append(want)
    order = list(range(len(cases)))
    rnd.shuffle(order)
    answers = run_harness("conc", [cases[i] for i in order], race=True, procs=4, timeout=2400 if deep else 600, env=ENV, stall=45)
    kinds = {}
    for i, a in zip(order, answers):
        case, want = cases[i], wants[i]
        c.count(1)
        if "crash" in a:
            crash = a["crash"]
            c.violation("the threads do not end: %s" % crash[:400] if "no answer" in crash else "the process crashes: %s" % crash[-400:], dict(case=case, crash=crash))
        if "race" in a:
            c.violation("data race between independent templates: %s" % " / ".join(l.strip() for l in a["race"].split("\n") if "gotemplate" in l and "(" in l)[:400], dict(case=case, race=a["race"]))
        if "results" not in a:
            continue
        tokens = [w[1] for w in want if w and w[1]]
        bad = 0
        for g, w, r in zip(case["events"], want, a["results"]):
            if w is None:
                continue
            e, tok = w
            if e["kind"] == "new":
                good, expected = not r.get("err"), "a template"
            elif e["out"] == "error":
                expected = "an error" + (" about %s only" % tok if tok else "")
                message = r.get("err", "")
                good = bool(message) and not r.get("panic") and (tok is None or tok in message and not [t for t in tokens if t != tok and t in message])
            else:
                expected = e["out"]
                good = not r.get("err") and not r.get("panic") and (r["out"].replace("\n", "") == expected)
            kinds[e["kind"]] = kinds.get(e["kind"], 0) + 1
            if not good and bad < 3:
                bad += 1
                c.violation("thread %d (template %s, %s operations at a time) evaluates %r and gets %s instead of %r" % (g["p"], e["own"], "free" if case["free"] else "given", g.get("text", "new template"),
                            repr(r["out"] if not r.get("err") and not r.get("panic") else "error: " + (r.get("panic") or r.get("err", "")))[:300], expected), dict(case=case, operation=g, got=r, expected=expected))
    c.cov["operations"] = kinds
    c.sample(dict(case=cases[-1]))
    shutil.rmtree(d)
