"""C21 (Data): values written in a format and read back."""
import random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

READ = {"json": "fromJson", "yaml": "fromYaml", "hcl": "fromHcl", "data": "data"}


def value(n):
    """Python value of a node of the model."""
    if n["t"] == "s":
        return n["x"]
    if n["t"] == "n":
        return json.loads(n["x"])
    vs = [value(x) for x in n["vs"]]
    return vs if n["t"] == "l" else dict(zip(n["ks"], vs))


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def step_text(s, g, i):
    """Template code which does a step on $v (the strings of the model are in the context)."""
    op, a = s["op"], s["a"]
    arg = lambda j: "(index $.args %d %d %d)" % (g, i, j)
    if op == "conv":
        printer, reader = a
        text = "(%s $v)" % printer
        if printer.startswith("toQuoted"):
            text = '(fromJson (printf "\\"%%s\\"" %s))' % text
        return "%s %s" % (READ[reader], text)
    if op == "print":
        return "%s (print $v)" % READ[a[0]]
    if op == "pretty":
        return "%s $v.PrettyPrint" % READ[a[0]]
    if op == "method":
        return "$v.%s" % a[0]
    if op == "wrap":
        return "dict %s $v" % arg(0)
    if op == "box":
        return "append (list) $v"
    if op == "get":
        return "get $v %s" % arg(0)
    if op == "item":
        return "index $v %s" % a[0]
    if op == "append":
        return "append $v %s" % arg(0)
    raise CheckError("unknown step " + op)


def template(h, g):
    """Template code of the behaviour h, whose value and strings are the number g of the context."""
    code = "{{ $v := index .v %d }}" % g
    for i, s in enumerate(h["steps"]):
        if s["op"] == "set":
            code += "{{ set $v (index $.args %d %d 0) (index $.args %d %d 1) }}" % (g, i, g, i)
        else:
            code += "{{ $v = %s }}" % step_text(s, g, i)
    return code + "{{ toJson $v }}"


def verdict(c, h, got, how, detail):
    want = value(h["val"])
    try:
        v = json.loads(got)
        ok = same(v, want)
    except (ValueError, TypeError):
        ok = False
    if not ok:
        c.violation("%s %s: the value is %s instead of %s" % (how, [[s["op"]] + s["a"] for s in h["steps"]] if how == "template" else "",
                                                              str(got)[:300], json.dumps(want, ensure_ascii=False)[:300]), detail)
    return ok


def C21(c):
    deep = c.tier == "thorough"
    jobs = [dict(module="Data", consts=dict(MaxBuild=3, MaxSteps=2 if deep else 1, Sim="FALSE", Emit="FALSE" if deep else "TRUE"), heap="8g", timeout=700)]
    jobs += [dict(module="Data", simulate=20000 if deep else 1800, depth=24, seed=SEED * 1000 + i, coverage=False,
                  consts=dict(MaxBuild=9, MaxSteps=6, Sim="TRUE", Emit="TRUE")) for i in range(6 if deep else 3)]
    jobs += [dict(module="Data", simulate=10000 if deep else 1000, depth=24, seed=SEED * 1000 + 100 + i, coverage=False,
                  consts=dict(MaxBuild=3, MaxSteps=3, Sim="TRUE", Emit="TRUE")) for i in range(2)]
    res = tlc_many(jobs)
    c.model(res[0])
    seen, hists = set(), []
    for r in res:
        for h in r.records:
            k = json.dumps(h, sort_keys=True)
            if k not in seen:
                seen.add(k)
                hists.append(h)
    c.cov["behaviours"] = len(hists)
    # several values by case, to limit the number of templates
    groups = [hists[i:i + 40] for i in range(0, len(hists), 40)]
    cases = [dict(ctx=dict(v=[value(h["doc"]) for h in hs], args=[[s["a"] for s in h["steps"]] for h in hs]), kind=["native", "json"][n % 2],
                  shared=True, texts=[dict(name="x%d.gt" % g, text=template(h, g)) for g, h in enumerate(hs)],
                  **{"global": ["json", "yaml", "hcl", "base"][n // 2 % 4]}) for n, hs in enumerate(groups)]
    ops = {}
    for hs, case, a in zip(groups, cases, run_harness("tpl", cases)):
        if isinstance(a, dict):
            c.violation("crash", dict(answer=a, case=case))
            continue
        for g, (h, r) in enumerate(zip(hs, a)):
            c.count()
            for s in h["steps"]:
                key = " ".join([s["op"]] + (s["a"] if s["op"] in ("conv", "print", "pretty", "method") else []))
                ops[key] = ops.get(key, 0) + 1
            detail = dict(template=case["texts"][g]["text"], value=case["ctx"]["v"][g], globals=case["global"], context=case["kind"], got=r)
            if r.get("err") or r.get("panic"):
                c.violation("%s on %s: error %s" % ([[s["op"]] + s["a"] for s in h["steps"]], json.dumps(detail["value"], ensure_ascii=False)[:200],
                                                   (r.get("panic") or r["err"])[:300]), detail)
            else:
                verdict(c, h, r["out"], "template", detail)
    c.cov["steps"] = dict(sorted(ops.items()))
    c.sample(dict(template=cases[-1]["texts"][-1]["text"], value=value(hists[-1]["doc"]), expected=value(hists[-1]["val"])))
    imports(c, [h for h in hists if h["import"]], 400 if deep else 60)


FILES = [("toJson", "a.json"), ("toPrettyJson", "b.json"), ("toYaml", "c.yaml"), ("toYaml", "d.yml"), ("toHcl", "e.hcl"), ("toPrettyHcl", "f.hcl"),
         ("toTFVars", "g.tfvars"), ("toPrettyTFVars", "h.tfvars"), ("toJson", "k.txt"), ("toYaml", "l.txt"), ("toHcl", "m.txt")]


def imports(c, hists, number):
    """The same value imported by the command from files of each format, alone or under a name, from the standard input and from --var."""
    rng = random.Random(SEED)
    hists = rng.sample(hists, min(number, len(hists)))
    cases = [dict(ctx=dict(v=value(h["val"])), texts=[dict(name="x.gt", text="{{ %s .v }}" % f) for f, _ in FILES]) for h in hists]
    answers = run_harness("tpl", cases)
    exe = cli()

    def one(item):
        h, texts, n = item
        d = mkdir("imp")
        for (_, name), r in zip(FILES, texts):
            with open(os.path.join(d, name), "w", newline="") as f:
                f.write(r["out"])
        runs = []
        env = go_env({"GOTEMPLATE_NO_STDIN": "1"})
        env["TMPDIR"] = d
        named = [x for i, (_, name) in enumerate(FILES) for x in ["--var", "v%s=%s" % (chr(97 + i), name)]]
        runs.append((named + ["@-toJson(list(%s))" % ", ".join("$.v%s" % chr(97 + i) for i in range(len(FILES)))], None, list(range(len(FILES)))))
        one = n % len(FILES)
        keys = h["hcl"]["ks"] if FILES[one][1][0] in "efghm" else h["val"]["ks"]
        whole = "{{ toJson (pick . %s) }}" % " ".join(json.dumps(k, ensure_ascii=False) for k in keys)
        runs.append((["--import", FILES[one][1], whole], None, one))
        runs.append((["--import=-", whole], texts[one]["out"], one))
        runs.append((["--var", "v=" + texts[0]["out"], "@-toJson(list($.v))"], None, [0]))
        out = []
        for args, stdin, which in runs:
            if stdin is not None:
                env.pop("GOTEMPLATE_NO_STDIN")
            p = subprocess.run([exe] + args, input=stdin or "", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d, timeout=60)
            env["GOTEMPLATE_NO_STDIN"] = "1"
            out.append((args, stdin, which, p))
        shutil.rmtree(d)
        return h, texts, out
    work = []
    for n, (h, case, a) in enumerate(zip(hists, cases, answers)):
        if isinstance(a, dict) or any(r.get("err") for r in a):
            c.violation("a value cannot be printed: %s" % json.dumps(case["ctx"]["v"], ensure_ascii=False)[:300], dict(case=case, answer=a))
        else:
            work.append((h, a, n))
    with ThreadPoolExecutor(NCPU) as ex:
        for h, texts, out in ex.map(one, work):
            for args, stdin, which, p in out:
                c.count(1, commands=1)
                want = lambda i: value(h["hcl"] if FILES[i][1][0] in "efghm" else h["val"])
                try:
                    got = json.loads(p.stdout)
                    bad = None
                    for i in (which if isinstance(which, list) else [which]):
                        v = got[which.index(i)] if isinstance(which, list) else got
                        if not same(v, want(i)):
                            bad = "%s gives %s instead of %s" % (FILES[i], json.dumps(v, ensure_ascii=False)[:200], json.dumps(want(i), ensure_ascii=False)[:200])
                            break
                except ValueError:
                    bad = "exit %d, %s" % (p.returncode, (p.stdout + p.stderr)[:300])
                if bad:
                    c.violation("gotemplate %s: %s" % (args[:-1][:6], bad),
                                dict(args=args, stdin=stdin, files={f[1]: r["out"] for f, r in zip(FILES, texts)}, stdout=p.stdout, stderr=p.stderr[-400:]))
