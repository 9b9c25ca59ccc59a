"""C22 (Options): functions available with each set of options, and what they do."""
import random
from common import *

ADDONS = ["Sprig", "Math", "Data", "Logging", "Runtime", "Utils", "Net", "OS", "Git"]
ALL = ADDONS + ["Razor", "Extension"]
# functions that are not called (they end or affect the process, use the network, are random or slow, or depend on what is available): only their presence is verified
NOT_CALLED = set("""exit exec execute run include eval alias localAlias func raise raiseError assert assertion assertWarning assertw completeExamples functions allFunctions
 aliases categories function templates templateNames save write writeTo genPrivateKey genCA genCAWithKey genSelfSignedCert genSelfSignedCertWithKey genSignedCert
 genSignedCertWithKey bcrypt htpasswd derivePassword buildCustomCert encryptAES decryptAES lorem loremIpsum randInt shuffle getHostByName fail
 c context userContext current getAttributes attr attributes getMethods methods getSignature sign signature ellipsis now ago date_in_zone uuidv4 env expandenv""".split())
NOT_CALLED_GROUPS = {"Logging", "Net", "Git"}
CTX = dict(s="a text", t="b", l=[3, 1, 2], d=dict(k=7), e=[], n=4, f=2.5, w=["x", "", "y"])
VALUES = ["$.s", "$.t", "$.l", "$.d", "$.n", "$.f", "2", '"k"', '"%v-%v"', "-1", "$.w", "true", "$.e"]
EXTENSION = """{{ define "shared" }}S{{ print 1 }}{{ end }}
{{ alias "userAlias" "include" "A{{ print 1 }}" }}{{ alias "userArgs" "include" "{{ range .ARGS }}<{{ . }}>{{ end }}" 1 }}
{{ localAlias "userLocal" "include" "shared" }}{{ func "userFunc" "include" "F{{ .p }}" (dict "args" (list "p") "aliases" (list "userOther")) }}
"""
USER = dict(userAlias=("userAlias", "A1"), userArgs=("userArgs 2", "<1><2>"), userLocal=("userLocal", "S1"), userFunc=("userFunc 5", "F5"), userOther=("userOther 6", "F6"))


def probe(name):
    return "{{ if false }}{{ $x := %s }}{{ end }}ok" % name


def call(name, args):
    return '{{ printf "%%v" (%s %s) }}' % (name, " ".join(args))


def evaluate(jobs):
    """jobs: (options, texts) -> results (text or None if it fails) of each job."""
    cases = [dict(dict(ctx=CTX, shared=True, texts=[dict(name=n, text=t) for n, t in texts]), **o) for o, texts in jobs]
    res = []
    for o, a in zip(jobs, run_harness("tpl", cases, procs=NCPU)):
        if not isinstance(a, list):
            a = [dict(err="crash: " + a["crash"], panic=a["crash"])] * len(o[1])
        res.append([None if r.get("err") or r.get("panic") else r["out"] for r in a])
    return res


def only(g):
    return dict(opts={o: o == g for o in ALL})


def denotations(c, catalog, rnd):
    """What the functions of each add-on give on some arguments when it is the only one: {(add-on, function): [(arguments, result)]}."""
    tuples = [(v,) for v in VALUES] + [()] + [tuple(rnd.choices(VALUES, k=2)) for _ in range(30)] + [tuple(rnd.choices(VALUES, k=3)) for _ in range(25)]
    jobs, keys = [], []
    for g in ADDONS:
        if g in NOT_CALLED_GROUPS:
            continue
        names = sorted(n for n, base in catalog[g].items() if not base and n not in NOT_CALLED and not n.startswith(("rand", "gen", "must")))
        for k in range(0, len(names), 20):
            part = [(n, a) for n in names[k:k + 20] for a in tuples]
            keys.append((g, part))
            jobs.append((only(g), [("x.gt", call(n, a)) for n, a in part]))
    first, second = evaluate(jobs), evaluate(jobs)
    known = {}
    for (g, part), r1, r2 in zip(keys, first, second):
        for (n, a), x, y in zip(part, r1, r2):
            if x is not None and x == y and "0x" not in x:
                known.setdefault((g, n), []).append((a, x))
    return {k: rnd.sample(v, min(4, len(v))) for k, v in known.items()}


def flags(rnd, on):
    """Command line that gives this set of options."""
    if rnd.random() < 0.5:
        a = ["--base"] + ["--" + o.lower() for o in ALL if o in on]
    else:
        a = ["--no-" + o.lower() for o in ALL if o not in on] + ["--" + o.lower() for o in ALL if o in on and rnd.random() < 0.3]
    a = [x.replace("extension", "ext") if rnd.random() < 0.5 else x for x in a]
    rnd.shuffle(a)
    return a


def C22(c):
    deep = c.tier == "thorough"
    rnd = random.Random(SEED)
    K = lambda n, w, sim, emit: dict(MaxSteps=n, Width=w, Sim=sim, Emit=emit)
    jobs = [dict(module="Options", cfg="Options", consts=K(2, 1, "FALSE", "FALSE"), timeout=900)]
    if deep:
        jobs.append(dict(module="Options", cfg="Options", consts=K(1, 11, "FALSE", "FALSE"), timeout=2400))
    # each add-on alone, and all but each
    jobs.append(dict(module="Options", cfg="OptionsEmit", consts=K(1, 1, "FALSE", "TRUE"), timeout=900))
    jobs += [dict(module="Options", cfg="OptionsEmit", simulate=(100 if deep else 12), depth=40, seed=SEED * 1000 + i, timeout=900, consts=K(i + 1, 2, "TRUE", "TRUE")) for i in range(4)]
    res = tlc_many(jobs)
    for r in res[:2 if deep else 1]:
        c.model(r)
    recs = [x for r in res[2 if deep else 1:] for x in r.records]
    catalog = json.loads(json.dumps(recs[0]["catalog"]))
    every = sorted(set().union(*[set(t) for t in catalog.values()]) | set(recs[0]["always"]) | set(USER))
    known = denotations(c, catalog, rnd)
    c.cov["functions"] = sum(len(t) for t in catalog.values())
    c.cov["functions_called"] = len(known)
    c.cov["calls"] = sum(len(v) for v in known.values())
    d = mkdir("options")
    folder = os.path.join(d, "ext")
    for sub in ("", "a", "a/b"):
        os.makedirs(os.path.join(folder, sub), exist_ok=True)
    with open(os.path.join(folder, "x.gte"), "w") as f:
        f.write(EXTENSION)
    jobs, wants = [], []
    for n, rec in enumerate(recs):
        on, table = set(rec["on"]), rec["table"]
        texts, want = [], []

        def add(text, expected, what, sub=None):
            texts.append((os.path.join(folder, rnd.choice(["", "a", "a/b"]) if sub is None else sub, "x.gt"), text))
            want.append((expected, what))
        for name in every:
            add(probe(name), "ok" if name in table else None, name)
        for name, (text, result) in USER.items():
            if name in table:
                add("{{ %s }}" % text, result, name)
        for name, g in table.items():
            if g in ADDONS:
                base = catalog[g][name] or name
                cases = known.get((g, base), [])
                for a, result in cases if deep else rnd.sample(cases, min(1, len(cases))):
                    if catalog[g].get(base) == "" :
                        add(call(name, a), result, "%s (%s of %s)" % (name, base, g))
        add("{{ if false }}{{ end }}[@s]", "[a text]" if "Razor" in on else "[@s]", "razor")
        add('{{ template "shared" }}', "S1" if "Extension" in on else None, "template of an extension")
        if "Runtime" in on:
            add('{{ include "shared" }}', "S1" if "Extension" in on else None, "included template of an extension")
            add('{{ range allFunctions }}{{ . }} {{ end }}', table, "allFunctions")
            add('{{ range functions }}{{ . }} {{ end }}{{ range aliases }}{{ . }} {{ end }}', table, "functions and aliases")
        jobs.append((dict(start=rec["start"], steps=rec["steps"], folder=folder), texts))
        wants.append(want)
    for (opts, texts), want, rec, got in zip(jobs, wants, recs, evaluate(jobs)):
        c.count(1)
        seen = 0
        for (name, text), (expected, what), g in zip(texts, want, got):
            if isinstance(expected, dict):
                listed = set((g or "").split()) & set(every)
                good = listed == {x for x in expected if not (x == "slice" and expected[x] == "Base")}
                expected, g = "the available functions", "different: " + " ".join(sorted(listed ^ set(expected)))[:300]
            else:
                good = g == expected
            if not good:
                seen += 1
                if seen <= 3:
                    c.violation("with the options %s (from %s, %s), %s: %s gives %s instead of %s" % (sorted(rec["on"]), rec["start"], rec["steps"], what, text,
                                "an error" if g is None else repr(g), "an error" if expected is None else repr(expected)), dict(options=opts, text=text, file=name, expected=expected, got=g))
    # the command
    exe = cli()
    chosen = recs if deep else rnd.sample(recs, 24)
    with open(os.path.join(folder, "probe.gt"), "w") as f:
        f.write('{{ print "base" }} [@s]')
    env = go_env(dict(GOTEMPLATE_NO_STDIN="1"))
    for rec in chosen:
        on, table = set(rec["on"]), rec["table"]
        a = flags(rnd, on)
        r = subprocess.run([exe, "list", "--functions", "--all"] + a + ["--no-color"], cwd=folder, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
        listed = set(r.stdout.split()) & set(every)
        c.count(1)
        want = {x for x in table if not (x == "slice" and table[x] == "Base")}
        if listed != want:
            c.violation("gotemplate list -f -a %s lists %s" % (" ".join(a), ("unavailable functions %s" % sorted(listed - want))[:300] if listed - want else ("not %s" % sorted(want - listed))[:300]), dict(flags=a, listed=sorted(listed), expected=sorted(want)))
        r = subprocess.run([exe, "run", "probe.gt", "-P", "--var", "s=text"] + a, cwd=folder, env=env, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=120)
        want = "base [%s]" % ("text" if "Razor" in on else "@s")
        if r.stdout.strip() != want or r.returncode != 0:
            c.violation("gotemplate run probe.gt -P %s prints %r (exit code %d) instead of %r" % (" ".join(a), r.stdout, r.returncode, want), dict(flags=a, out=r.stdout, err=r.stderr, expected=want))
    c.sample(dict(options=jobs[-1][0], texts=[t for _, t in jobs[-1][1]][-60:]))
    shutil.rmtree(d)
