"""C15 (Slices), C16 (Ranges): behaviours of the specifications replayed through the template functions."""
import random
from common import *


def q(s):
    return json.dumps(s, ensure_ascii=False)


def go_lit(text):
    """Go template literal for a JSON text of the model."""
    v = json.loads(text)
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], list):
        return "(append (list) %s)" % go_lit(json.dumps(v[0]))      # list with a single list copies it
    if isinstance(v, list):
        return "(list%s)" % "".join(" " + go_lit(json.dumps(x)) for x in v) if v else "(list)"
    if isinstance(v, dict):
        return "(dict%s)" % "".join(" %s %s" % (q(k), go_lit(json.dumps(x))) for k, x in v.items())
    return "nil" if v is None else json.dumps(v, ensure_ascii=False)


def fold(recs, per=40):
    return [recs[i:i + per] for i in range(0, len(recs), per)]


def norm(text):
    """JSON text in canonical form, or None."""
    try:
        return json.dumps(json.loads(text), sort_keys=True)
    except ValueError:
        return None


# ------------------------------------------------------------------ C15

def C15(c):
    deep = c.tier == "thorough"
    base = dict(module="Slices", cfg="Slices")
    jobs = [dict(base, consts=dict(MaxLen=7 if deep else 5, Bound=9 if deep else 6, MaxSteps=1, Sim="FALSE", Emit="TRUE"))]
    jobs += [dict(base, simulate=6000 if deep else 600, depth=6, seed=SEED * 1000 + i, coverage=False,
                  consts=dict(MaxLen=7, Bound=9, MaxSteps=4, Sim="TRUE", Emit="TRUE")) for i in range(4 if deep else 2)]
    res = tlc_many(jobs)
    c.model(res[0])
    hists = [h for r in res for h in r.records]
    c.cov["exhaustive_histories"] = len(res[0].records)
    rng = random.Random(SEED)
    cases, want = [], []
    for n, h in enumerate(hists):
        texts, exp = [], []
        for j in range(1, len(h)):
            prev, step = h[j - 1]["r"], h[j]
            isdict = prev.startswith("{")
            step = dict(step, dict=isdict)
            for f in SLICE_FORMS + ([f_razor, f_razor_expr] if n % 4 == 1 else []):      # printed as JSON by the json implementation
                t = f(step, prev)
                if t is not None:
                    texts.append(dict(text=t))
                    exp.append((step, prev, t))
        cases.append(dict(texts=texts, **{"global": ["base", "json", "yaml", "hcl"][n % 4]}))
        want.append(exp)
    # group the histories to limit the number of templates
    grouped, gwant = [], []
    for g in range(4):
        for ix in fold([i for i in range(len(cases)) if i % 4 == g], 60):
            grouped.append(dict(texts=[t for i in ix for t in cases[i]["texts"]], shared=True, **{"global": cases[ix[0]]["global"]}))
            gwant.append([e for i in ix for e in want[i]])
    ans = run_harness("tpl", grouped)
    total = 0
    for g, (a, exp) in enumerate(zip(ans, gwant)):
        if isinstance(a, dict):
            c.violation("crash", dict(answer=a, texts=[e[2] for e in exp][:200]))
            continue
        for (step, prev, text), r in zip(exp, a):
            total += 1
            verdict(c, step, prev, text, r, grouped[g]["global"])
    c.count(total)
    c.cov["operations_replayed"] = {}
    for exp in gwant:
        for step, _, _ in exp:
            c.cov["operations_replayed"][step["o"]] = c.cov["operations_replayed"].get(step["o"], 0) + 1
    for exp in (gwant[0], gwant[-1]):
        c.sample(dict(value=exp[-1][1], step=[exp[-1][0]["o"]] + exp[-1][0]["a"], template=exp[-1][2], expected=exp[-1][0]["r"]))
    c.assumptions += ["the text of strings is ASCII (positions are bytes)"]


def verdict(c, step, prev, text, r, glob):
    want = step["r"]
    got = r.get("out", "")
    if r.get("panic"):
        bad = "panic: " + r["panic"]
    elif want == "error":
        bad = None if r.get("err") else "no error, result %s" % got
    elif r.get("err"):
        bad = "error " + r["err"][:300]
    else:
        parts = got.split("|")
        after = prev
        bad = None
        if len(parts) != 2:
            bad = "unexpected output " + got[:300]
        elif norm(parts[0]) != norm(want) and not ("@val" in text and json.dumps(parts[0]) == want):
            bad = "result %s instead of %s" % (parts[0][:300], want)
        elif norm(parts[1]) != norm(after):
            bad = "the operand became %s" % parts[1][:300]
    if bad:
        c.violation("%s %s on %s: %s" % (step["o"], step["a"], prev, bad),
                    dict(template=text, expected=want, got=r, globals=glob))


def call_go(step):
    o, a = step["o"], step["a"]
    args = [q(x) if step["dict"] else x for x in a]
    return {"from": "slice $v %s -1" % (a[0] if a else ""), "upto": "slice $v 0 %s" % (a[0] if a else ""), "all": "slice $v",
            "safeIndex": 'safeIndex $v %s "ff"' % (a[0] if a else "")}.get(o) or "%s $v %s" % (o, " ".join(args))


def f_go(step, prev):
    return "{{ $v := %s }}{{ toJson (%s) }}|{{ toJson $v }}" % (go_lit(prev), call_go(step))


def f_pipe(step, prev):
    if step["o"] not in ("rest", "initial", "first", "last", "reverse", "len"):
        return None
    return "{{ $v := %s }}{{ $v | %s | toJson }}|{{ toJson $v }}" % (go_lit(prev), step["o"])


def f_list(step, prev):
    if step["o"] not in ("slice", "extract") or len(step["a"]) < 2 or step["dict"]:
        return None
    return "{{ $v := %s }}{{ toJson (%s $v (list %s)) }}|{{ toJson $v }}" % (go_lit(prev), step["o"], " ".join(step["a"]))


def index_text(step):
    o, a = step["o"], step["a"]
    args = [q(x) if step["dict"] else x for x in a]
    if o == "slice" and len(a) == 2:
        return "[%s:%s]" % tuple(args)
    if o == "extract" and len(a) >= 1:
        return "[%s]" % ",".join(args)
    if o == "from" and not step["dict"]:
        return "[%s:]" % a[0]
    if o == "upto" and not step["dict"]:
        return "[:%s]" % a[0]
    if o == "all":
        return "[:]"
    return None


def f_razor(step, prev):
    ix = index_text(step)
    if ix is None or step["r"] == "null":
        return None
    return '{{ $_ := set $ "val" %s }}@val%s;|@toJson($.val)' % (go_lit(prev), ix)


def f_razor_expr(step, prev):
    ix = index_text(step)
    if ix is None or "," in ix:
        return None
    return '{{ $_ := set $ "val" %s }}@toJson(val%s)|@toJson($.val)' % (go_lit(prev), ix)


SLICE_FORMS = [f_go, f_pipe, f_list]


# ------------------------------------------------------------------ C16

def dec(i, scale):
    """Decimal text of i/10^scale."""
    s = "-" if i < 0 else ""
    d = str(abs(i)).rjust(scale + 1, "0")
    return s + (d if scale == 0 else (d[:-scale] + "." + d[-scale:]).rstrip("0").rstrip("."))


def rset(a, b):
    return "%d..%d" % (a, b)


def C16(c):
    deep = c.tier == "thorough"
    small = dict(Starts=rset(-4, 4) if deep else rset(-3, 3), Stops=rset(-7, 7) if deep else rset(-5, 5),
                 Steps="{-3, -1, 0, 1, 2, 3, 5, 10}", Scales="{0, 1, 2}", MaxCount=40, Sim="FALSE", Emit="TRUE")
    jobs = [dict(module="Ranges", cfg="Ranges", consts=small)]
    wide = dict(Starts="-300..300", Stops="-300..300", Steps="1..60", Scales="0..5", MaxCount=700, Sim="TRUE", Emit="TRUE")
    big = dict(Starts="{0, 99999, -123456, 1000000}", Stops="{100000, 100003, -123450, 999990}", Steps="{1, 7, 25000, 50000}", Scales="0..8",
               MaxCount=700, Sim="TRUE", Emit="TRUE")
    jobs += [dict(module="Ranges", cfg="RangesSim", simulate=20000 if deep else 1500, depth=705, seed=SEED * 1000 + i, consts=wide) for i in range(2)]
    jobs += [dict(module="Ranges", cfg="RangesSim", simulate=4000 if deep else 300, depth=705, seed=SEED * 1000 + 10, consts=big)]
    res = tlc_many(jobs)
    c.model(res[0])
    recs = res[0].records + res[1].records + res[2].records + res[3].records
    c.cov["exhaustive_requests"] = len(res[0].records)
    cases, exp = [], []
    for g in range(0, len(recs), 100):
        texts, e = [], []
        for n, r in enumerate(recs[g:g + 100]):
            rq, sc = r["q"], r["q"]["scale"]
            args = {1: [rq["stop"]], 2: [rq["start"], rq["stop"]], 3: [rq["start"], rq["stop"], rq["step"]]}[rq["argc"]]
            args = [dec(x, sc) for x in args]
            fn = "to" if rq["incl"] else "until"
            want = [dec(x, sc) for x in r["out"]]
            forms = ["{{ toJson (%s %s) }}" % (fn, " ".join(args)), "@toJson(%s(%s))" % (fn, ", ".join(args)),
                     "{{ toJson (%s %s) }}" % (fn, " ".join('"%s"' % a for a in args))]
            for f in ([forms[0], forms[1 + n % 2]]):
                texts.append(dict(text=f))
                e.append(("range", rq, want))
            if rq["step"] and want:
                st = [int(x) for x in r["stats"]]
                k = ["sum", "add", "min", "max", "avg", "average", "minimum", "maximum"][n % 8]
                v = {"s": st[0], "a": st[0] / len(want) if k != "add" else st[0], "m": st[1] if k.startswith("min") else st[2]}[k[0]]
                texts.append(dict(text="{{ $r := %s %s }}{{ toJson (%s $r) }}" % (fn, " ".join(args), k)))
                e.append(("stat", rq, v / 10 ** sc))
        cases.append(dict(texts=texts, shared=True, **{"global": ["base", "json", "yaml", "hcl"][(g // 100) % 4]}))
        exp.append(e)
    ans = run_harness("tpl", cases)
    for case, a, e in zip(cases, ans, exp):
        if isinstance(a, dict):
            c.violation("crash while generating ranges", dict(answer=a, texts=[t["text"] for t in case["texts"]]))
            continue
        for t, r, (kind, rq, want) in zip(case["texts"], a, e):
            c.count(1)
            bad = None
            if rq["step"] == 0:
                bad = None if r.get("err") else "a step of 0 is not an error"
            elif r.get("err") or r.get("panic"):
                bad = "error " + str(r)[:300]
            else:
                try:
                    got = json.loads(r["out"])
                    if kind == "range":
                        bad = None if got == [float(x) for x in want] else "got %s instead of %s" % (r["out"][:400], want[:100])
                    else:
                        bad = None if abs(got - want) <= 1e-9 * max(1, abs(want)) else "got %s instead of %s" % (r["out"], want)
                except (ValueError, TypeError):
                    bad = "unexpected output " + r["out"][:200]
            if bad:
                c.violation("%s: %s" % (t["text"], bad), dict(template=t["text"], request=rq, got=r, expected=want if not isinstance(want, list) else want[:100]))
    for i in (0, -1):
        c.sample(dict(template=cases[i]["texts"][-1]["text"], expected=exp[i][-1][2] if not isinstance(exp[i][-1][2], list) else exp[i][-1][2][:50]))
    c.assumptions += ["numbers have at most 8 decimals"]
