"""C07, C08 (Razor): programs of the specification evaluated in razor and Go template syntax, with several delimiters."""
import random
from common import *

DELIMS = [("{{", "}}", "@")]
CUSTOM = [("[[", "]]", "§"), ("<%", "%>", "¤"), ("«", "»", "€€"), ("<{", "}>", "¶"), ("{%", "%}", "~~")]
CTX = dict(a=4, b=2, z=0, s="str", e="", f=False, l=[1, 2, 3], d=dict(k=7))
GLOBALS = "abxyzsuefwlm"
PRINTED = re.compile(r"‹([^‹›]*)›")


def text(rec, form, delims):
    L, R, D = delims
    epilogue = ["<L> if isNil $.%s <R>‹nil›<L> else <R>‹<L> $.%s <R>›<L> end <R>" % (n, n) for n in GLOBALS]
    epilogue += ["<L> if isNil $.d.%s <R>‹nil›<L> else <R>‹<L> $.d.%s <R>›<L> end <R>" % (n, n) for n in "jkz"]
    # the delimiter is doubled within the strings
    return "\n".join([x.replace("@", "@@") if D == "@" else x for x in rec[form]] + epilogue).replace("<L>", L).replace("<R>", R).replace("<D>", D)


def expected(rec):
    return rec["out"] + [rec["final"][n] for n in GLOBALS] + [rec["members"][n] for n in "jkz"]


def forms(c, recs, every=False):
    """Evaluates each program in its forms; every: all the delimiters for each program."""
    cases, about = [], []
    for n, r in enumerate(recs):
        variants = [("razor", DELIMS[0])] + ([("tpl", DELIMS[0])] if r["mode"] != "strict" else [])
        extra = CUSTOM if every else [CUSTOM[n % len(CUSTOM)]]
        variants += [("razor", x) for x in extra]
        if r["mode"] != "strict" and (every or n % 3 == 0):
            variants += [("tpl", x) for x in extra]
        for form, dl in variants:
            case = dict(ctx=CTX, texts=[dict(name="x.gt", text=text(r, form, dl))], assign=r["mode"])
            if dl != DELIMS[0]:
                case["delims"] = ",".join(dl)
            cases.append(case)
            about.append((r, form, dl))
    for case, (r, form, dl), a in zip(cases, about, run_harness("tpl", cases)):
        c.count(1)
        got = a[0] if isinstance(a, list) else dict(err=a["crash"], out="")
        src = case["texts"][0]["text"].split("\n")
        prog = src[:len(r[form])]
        bad = dict(case=case, got=got, model=r)
        where = "%s, delimiters %s, validation %s" % (form, " ".join(dl), r["mode"])
        if r["err"]:
            line = "x.gt:%d" % r["err"]
            if not (got.get("err") or "").startswith(line + ":") or "does not exist" not in got["err"]:
                c.violation("%r (%s): the assignment of line %d must be refused, got %r" % (prog, where, r["err"], got.get("err") or got), bad)
            continue
        if got.get("err") or got.get("panic"):
            c.violation("%r (%s) failed: %s" % (prog, where, got.get("panic") or got["err"]), bad)
            continue
        w = expected(r)
        vals = PRINTED.findall(got["out"])
        rest = re.sub(PRINTED, "", got["out"])
        if vals != w or (re.sub("[,()]", "", rest) if "pair" in r["kinds"] else rest).strip():
            k = len(r["out"])
            c.violation("%r (%s) printed %s, expected %s" % (prog, where, vals[:-15] if vals[-15:] == w[k:] else vals, w[:k] if vals[-15:] == w[k:] else w), bad)
        ctx = json.loads(got.get("ctx") or "{}")
        ctx = {k: v for k, v in ctx.items() if k in GLOBALS or k == "d"}
        if ctx != CTX:
            c.violation("%r (%s) altered the context of the caller: %s" % (prog, where, ctx), bad)


def job(num, seed, lines, depth, family, modes, least=1):
    return dict(module="Razor", cfg="Razor", simulate=num, depth=420, seed=SEED * 1000 + seed, timeout=900,
                consts=dict(MaxLines=lines, MinLines=least, Depth=depth, Family='"%s"' % family, Modes=modes, Sim="TRUE", Emit="TRUE"))


def full(lines, depth, family, modes):
    return dict(module="Razor", cfg="Razor", timeout=900,
                consts=dict(MaxLines=lines, MinLines=lines, Depth=depth, Family='"%s"' % family, Modes=modes, Sim="FALSE", Emit="TRUE"))


def C07(c):
    deep = c.tier == "thorough"
    W = '{"warning"}'
    jobs = [full(1, 1, "expr", W), full(1, 2, "expr", W)]
    k = len(jobs)
    jobs += [job(6000 if deep else 1500, i, 1, 2 + i % 3, "expr", W) for i in range(3)]
    jobs += [job(8000 if deep else 1200, 10 + i, (8, 16, 24, 12)[i % 4], (2, 1, 3, 2)[i % 4], "all", W, (4, 8, 12, 6)[i % 4]) for i in range(8 if deep else 5)]
    res = tlc_many(jobs)
    for r in res[:k]:
        c.model(r)
    rng = random.Random(SEED)
    recs = []
    for r in res[:k]:
        recs += rng.sample(r.records, min(len(r.records), 60000 if deep else 2500))
    recs += [x for r in res[k:] for x in r.records]
    c.cov["programs"] = len(recs)
    forms(c, recs)
    for x in (recs[0], recs[-1]):
        c.sample(dict(razor=x["razor"], template=x["tpl"], out=x["out"]))
    c.assumptions += ["expressions within the typed domain of the specification (numbers below 10^6 in quarters)"]


def C08(c):
    deep = c.tier == "thorough"
    M = '{"strict", "warning", "disabled"}'
    jobs = [full(1, 0, "assign", M), full(2, 0, "assign", M)] + ([full(3, 0, "assign", M)] if deep else [])
    k = len(jobs)
    jobs += [job(8000 if deep else 1500, 20 + i, (6, 12, 18)[i % 3], 1, "assign", M, (2, 5, 8)[i % 3]) for i in range(8 if deep else 4)]
    res = tlc_many(jobs)
    for r in res[:k]:
        c.model(r)
    rng = random.Random(SEED)
    recs = []
    for r in res[:k]:
        recs += rng.sample(r.records, min(len(r.records), 60000 if deep else 3500))
    recs += [x for r in res[k:] for x in r.records]
    c.cov["programs"] = len(recs)
    c.cov["refused"] = sum(1 for r in recs if r["err"])
    forms(c, recs)
    for x in (recs[0], recs[-1]):
        c.sample(dict(razor=x["razor"], mode=x["mode"], out=x["out"], refused_line=x["err"]))
