"""C17 (Subst), C06 (Literal): texts of the specifications evaluated by the implementation."""
from common import *

# ------------------------------------------------------------------ C17

ALPHABETS = [dict(a="a", b="b", c="c"), dict(a="é", b="=", c="Z"), dict(a="X", b="-", c="_"), dict(a="/", b="x", c="y"), dict(a="日", b="<", c=">")]

# the razor delimiter is a character like the others in a paused section (p: the marker)
PAUSED = [dict(a="@", b="&", c="$", p="# razor-pause!"), dict(a="=", b="@", c="é", p="<razor-pause!>"), dict(a="&", b="x", c="@", p="gotemplate-resume! razor-pause! "),
          dict(a="D", b="$", c="@", p="// razor-pause!")]


def conc(text, al, code=True):
    res = []
    for ch in text:
        res.append(al.get(ch) or ('{{ "' if ch == "{" else '" }}' if ch == "}" else ch))
    return "".join(res)


def regex(s, al, sep):
    e = lambda t: re.sub(r"([.+*?()|\[\]{}^$\\])", r"\\\1", conc(t, al)).replace("\n", "\\n")
    p, r = e(s["p"]), conc(s["r"], al).replace("$", "$$")
    k = s["k"]
    if k == "lit":
        pat = (p, r)
    elif k == "plus":
        pat = ("(?:%s)+" % p, r)
    elif k == "alt":
        pat = ("[%s%s]" % (al["a"], al["b"]) if al["b"] != "-" else "(?:%s|%s)" % (al["a"], al["b"]), r)
    elif k == "tstart":
        pat = ("^" + p, r)
    elif k == "lstart":
        pat = ("(?m)^" + p, r)
    elif k in ("tins", "lins", "eins"):
        pat = (dict(tins="^", lins="(?m)^", eins="$")[k], r)
    elif k == "star":
        pat = ("(?:%s)*" % p, r)
    elif k == "del":
        pat = (p, "d")
    elif k == "delEol":
        pat = (p + "$", "d")
    elif k == "delLine":
        pat = ("^" + p + "$", "d")
    elif k == "swap":
        pat = ("(%s)(?P<second>%s)" % (e(s["p"][0]), e(s["p"][1])), "${second}$1")
    elif k == "emptyLines":
        pat = (r"^\s*$", "d")
    return sep + pat[0] + sep + pat[1]


def C17(c):
    deep = c.tier == "thorough"
    jobs = [dict(module="Subst", cfg="Subst", consts=dict(MaxText=3 if deep else 2, MaxSubs=1, Sim="FALSE", Emit="TRUE"), timeout=900)]
    jobs += [dict(module="Subst", cfg="Subst", simulate=(12000 if deep else 1200), depth=60, seed=SEED * 1000 + i,
                  consts=dict(MaxText=14 if i % 2 else 8, MaxSubs=4 if i % 2 else 2, Sim="TRUE", Emit="TRUE")) for i in range(4)]
    res = tlc_many(jobs)
    c.model(res[0])
    c.cov["exhaustive_texts"] = len(res[0].records)
    cases, want = [], []
    import random
    rng = random.Random(SEED)
    bfs = res[0].records
    if len(bfs) > (40000 if deep else 4000):
        bfs = rng.sample(bfs, 40000 if deep else 4000)
    recs = bfs + [r for x in res[1:] for r in x.records]
    for n, r in enumerate(recs):
        al = PAUSED[n % len(PAUSED)] if r["paused"] else ALPHABETS[n % len(ALPHABETS)]
        seps = [s for s in "/|!,%" if s not in al.values() and not (s == "|" and any(x["k"] == "alt" for x in r["subs"]))
                and not (s == "!" and False)]
        sub = [regex(x, al, seps[(n + i) % len(seps)]) for i, x in enumerate(r["subs"])]
        k = n % (len(sub) + 1) if n % 2 else 0           # the first k substitutions come from the environment
        while any("\n" in x for x in sub[:k]):            # the variable is a list of lines
            k -= 1
        env = {"GOTEMPLATE_SUBSTITUTES": "\n".join(sub[:k])} if k else {}
        cases.append(dict(texts=[dict(text=conc(r["src"], al))], subs=sub[k:], env=env))
        want.append(conc(r["res"], al))
    ans = run_harness("tpl", cases)
    for case, w, a, r in zip(cases, want, ans, recs):
        c.count(1)
        got = a[0] if isinstance(a, list) else dict(err=a["crash"])
        if got.get("err") or got.get("panic") or got["out"] != w:
            c.violation("substitutions %s (environment: %s) on %r gave %r instead of %r" % (
                case["subs"], case["env"], case["texts"][0]["text"], got.get("out", got), w), dict(case=case, got=got, expected=w, model=r))
    c.sample(dict(case=cases[len(cases) // 2], expected=want[len(cases) // 2]))
    c.sample(dict(case=cases[-1], expected=want[-1]))
    cli_substitutions(c, cases, want, recs, 400 if deep else 60)
    c.assumptions += ["regular expressions are literals, runs, alternatives, anchors and groups"]


def cli_substitutions(c, cases, want, recs, limit):
    """Through the command: -s options, GOTEMPLATE_SUBSTITUTES, --remove-empty-lines, content given on the standard input."""
    exe = cli()
    picked = [i for i in range(len(cases)) if want[i].strip(" \t\n") and recs[i]["subs"] and recs[i]["code"]]   # without code, a list of files
    picked = picked[::max(1, len(picked) // limit)]

    def one(i):
        case = cases[i]
        args, last = [], recs[i]["subs"][-1]["k"] == "emptyLines" and case["subs"]
        for s in case["subs"][:-1] if last else case["subs"]:
            args += ["-s", s]
        if last:
            args.append("--remove-empty-lines")
        d = mkdir("sub")
        env = go_env(case["env"])
        env["TMPDIR"] = d
        p = subprocess.run([exe] + args, input=case["texts"][0]["text"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=env, cwd=d, timeout=60)
        return i, args, p
    with ThreadPoolExecutor(NCPU) as ex:
        for i, args, p in ex.map(one, picked):
            c.count(1, commands=1)
            w = want[i] if want[i].endswith("\n") else want[i] + "\n"
            if p.returncode != 0 or p.stdout != w:
                c.violation("gotemplate %s on %r printed %r instead of %r (exit %d)" % (args, cases[i]["texts"][0]["text"], p.stdout, w, p.returncode),
                            dict(args=args, env=cases[i]["env"], stdin=cases[i]["texts"][0]["text"], stdout=p.stdout, stderr=p.stderr[-500:], expected=w))


# ------------------------------------------------------------------ C06

DELIMS = [("{{", "}}", "@")]
CUSTOM = [("[[", "]]", "§"), ("<%", "%>", "^"), ("«", "»", "€€"), ("<{", "}>", "%"), ("{%", "%}", "~~")]
IGNORE = dict(none=[], exact=["param"], star=["pa.+"])


def C06(c):
    deep = c.tier == "thorough"
    jobs = [dict(module="Literal", cfg="Literal", consts=dict(MaxLines=1, MaxPieces=2 if deep else 1, Sim="FALSE", Emit="TRUE", Focus='"all"'), timeout=900),
            dict(module="Literal", cfg="Literal", consts=dict(MaxLines=2, MaxPieces=1, Sim="FALSE", Emit="TRUE", Focus='"all"'), timeout=900)]
    jobs += [dict(module="Literal", cfg="Literal", simulate=(6000 if deep else 700), depth=120, seed=SEED * 1000 + i,
                  consts=dict(MaxLines=(2, 4, 8, 3)[i % 4], MaxPieces=(6, 4, 3, 8)[i % 4], Sim="TRUE", Emit="TRUE", Focus='"all"')) for i in range(8 if deep else 6)]
    jobs += [dict(module="Literal", cfg="Literal", simulate=(4000 if deep else 500), depth=120, seed=SEED * 1000 + 50 + i,
                  consts=dict(MaxLines=(4, 6)[i % 2], MaxPieces=(4, 2)[i % 2], Sim="TRUE", Emit="TRUE", Focus='"pause"')) for i in range(4 if deep else 2)]
    res = tlc_many(jobs)
    c.model(res[0])
    c.model(res[1])
    import random
    rng = random.Random(SEED)
    pick = lambda l, n: rng.sample(l, n) if len(l) > n else l
    recs = pick(res[0].records, 60000 if deep else 2500) + pick(res[1].records, 40000 if deep else 4000) + [r for x in res[2:] for r in x.records]
    cases, want = [], []
    for n, r in enumerate(recs):
        L, R, D = CUSTOM[n % len(CUSTOM)] if r["conf"]["custom"] else DELIMS[0]
        conc = lambda t: t.replace("<D>", D).replace("<L>", L).replace("<R>", R)
        ign = IGNORE[r["conf"]["ign"]]
        case = dict(ctx=dict(a=4, b=2, d=dict(k=7), param=8, params=9), texts=[dict(name="x.gt", text=conc(r["src"]))],
                    opts=dict(RenderingDisabled=r["conf"]["dis"]), env={})
        if r["conf"]["custom"]:
            case["delims"] = ",".join((L, R, D))
        if ign:
            case["env"] = {"GOTEMPLATE_IGNORE_RAZOR": [",".join(["zz"] + ign), json.dumps(ign), "\n".join(ign + ["k"])][n % 3]}
        cases.append(case)
        want.append(conc(r["res"]))
    for case, w, a, r in zip(cases, want, run_harness("tpl", cases), recs):
        c.count(1)
        got = a[0] if isinstance(a, list) else dict(err=a["crash"])
        if got.get("err") or got.get("panic") or got["out"] != w:
            c.violation("%r (%s, delimiters %s) gave %r instead of %r" % (
                case["texts"][0]["text"], r["conf"], case.get("delims", "default"), got.get("err") or got.get("panic") or got["out"], w),
                dict(case=case, got=got, expected=w, model=r))
    c.sample(dict(case=cases[len(cases) // 2], expected=want[len(cases) // 2]))
    c.sample(dict(case=cases[-1], expected=want[-1]))
    cli_literal(c, cases, want, recs, 300 if deep else 60)
    c.assumptions += ["texts are made of the pieces of the specification"]


def cli_literal(c, cases, want, recs, limit):
    """Through the command: --delimiters, --disable, --ignore-razor."""
    exe = cli()
    picked = [i for i in range(len(cases)) if recs[i]["code"] and want[i].strip() and want[i] != cases[i]["texts"][0]["text"]]
    picked = picked[::max(1, len(picked) // limit)]

    def one(i):
        d = mkdir("lit")
        case, conf = cases[i], recs[i]["conf"]
        with open(os.path.join(d, "ctx.json"), "w") as f:
            json.dump(case["ctx"], f)
        with open(os.path.join(d, "x.gt"), "w") as f:
            f.write(case["texts"][0]["text"])
        args = ["--import", "ctx.json", "--print" if conf["dis"] or i % 2 else "--no-print", "x.gt"]
        if conf["custom"]:
            args += ["--delimiters", case["delims"]]
        if conf["dis"]:
            args += ["--disable"]
        for x in IGNORE[conf["ign"]]:
            args += ["--ignore-razor", x]
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           env=go_env(dict(TMPDIR=d, GOTEMPLATE_NO_STDIN="1")), cwd=d, timeout=60)
        res = os.path.join(d, "x.generated")
        if os.path.exists(res):
            p.stdout += open(res, newline="").read()
        return i, args, p
    with ThreadPoolExecutor(NCPU) as ex:
        for i, args, p in ex.map(one, picked):
            c.count(1, commands=1)
            if p.returncode != 0 or p.stdout != want[i]:
                c.violation("gotemplate %s on %r printed %r instead of %r (exit %d)" % (args, cases[i]["texts"][0]["text"], p.stdout, want[i], p.returncode),
                            dict(args=args, text=cases[i]["texts"][0]["text"], stdout=p.stdout, stderr=p.stderr[-500:], expected=want[i]))
