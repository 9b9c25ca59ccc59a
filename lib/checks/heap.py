"""C09, C10, C11: histories of the Heap specification replayed on the real collections and template functions."""
from common import *

LISTS = ["NewList", "NewListOf", "Reverse", "Unique", "RemoveNil", "RemoveEmpty", "Append", "Prepend", "Union", "Intersect",
         "Without", "Remove", "Pop", "PopLast", "Set", "Get", "GetMany", "FirstLast", "Contains", "ContainsOne", "Find", "ContainsStrict", "FindStrict", "Len"]
DICTS = ["NewDict", "NewDict2", "SetKey", "AddKey", "GetKey", "GetKeys2", "HasKey", "HasKeys", "Default", "Delete", "Flush",
         "PopKey", "Pick", "Omit", "Keys", "KeysText", "Values", "Transpose", "Merge", "Merge3", "MergeNew", "Pluck", "Native",
         "RoundTrip", "Clone"]
ALL = LISTS + DICTS
NOT_IN_TEMPLATES = {"Remove", "Pop", "PopLast", "Set", "Get", "GetMany", "AddKey", "GetKeys2", "HasKeys", "Default", "Flush",
                    "PopKey", "Transpose", "MergeNew", "Native", "Clone"}
IMPLS = ["base", "json", "yaml", "hcl"]
GLOBALS = ["base", "json", "yaml", "hcl"]


def tset(names):
    return "{" + ", ".join('"%s"' % x for x in names) + "}"


def gen_job(ops, num, steps, seed):
    return dict(module="Heap", cfg="HeapGen", simulate=num, depth=steps + 1, seed=seed,
                consts=dict(MaxSteps=steps, MaxObjs=60, Sim="TRUE", Emit="TRUE", OpSet=tset(ops)))


def mc_job(ops, steps, emit=False, timeout=600, workers=4):
    return dict(module="Heap", cfg="HeapMCGen" if emit else "HeapMC", workers=workers, timeout=timeout,
                consts=dict(MaxSteps=steps, MaxObjs=40, Sim="FALSE", Emit="TRUE" if emit else "FALSE", OpSet=tset(ops)))


def replay(c, jobs_recs, impls, template, conc_all=False):
    cases = []
    for k, recs in enumerate(jobs_recs):
        for n, rec in enumerate(recs):
            for j, im in enumerate(impls):
                for conc in (range(5) if conc_all else [(n + j) % 5]):
                    cases.append({"steps": rec, "impl": im, "global": GLOBALS[(n + k + conc) % 4], "conc": conc, "via": "api"})
    for n, rec in enumerate(template):
        cases.append({"steps": rec, "impl": "json", "global": GLOBALS[n % 4], "conc": n % 5, "via": "template"})
    ans = run_harness("heap", cases)
    ops = {}
    for case, a in zip(cases, ans):
        for s in case["steps"][1:]:
            ops[s["o"]] = ops.get(s["o"], 0) + 1
        if not a.get("ok"):
            hist = case["steps"]
            if a.get("step") is not None:
                hist = hist[:a["step"] + 1]
            c.violation("%s (%s, %s)" % (a.get("what") or a.get("crash", "")[:200], case["impl"], case["via"]),
                        dict(history=[[s["o"]] + s["a"] for s in hist], impl=case["impl"], globals=case["global"],
                             conc=case["conc"], via=case["via"], answer=a))
    c.count(len(cases))
    c.cov["operations_replayed"] = ops
    if cases:
        c.sample(dict(history=[[s["o"]] + s["a"] for s in cases[0]["steps"]], values=cases[0]["steps"][-1]["v"]))
        c.sample(dict(history=[[s["o"]] + s["a"] for s in cases[-1]["steps"]], via=cases[-1]["via"]))


def run(c, ops, focus, pairs, impls, conc_all=False, alias=None):
    """ops: operations of the random histories; focus: operations enumerated exhaustively; pairs: operation sets
    whose histories of two operations are enumerated exhaustively."""
    deep = c.tier == "thorough"
    tpl = [o for o in ops if o not in NOT_IN_TEMPLATES]
    jobs = [gen_job(ops, 1200 if deep else 120, 16 if deep else 12, SEED * 1000 + i) for i in range(8 if deep else 2)]
    jobs += [gen_job(ops, 2500 if deep else 200, 6, SEED * 1000 + 100 + i) for i in range(2)]
    if alias:
        jobs += [gen_job(alias, 2500 if deep else 250, 9, SEED * 1000 + 300 + i) for i in range(2)]
    nt = len(jobs)
    if alias:
        jobs += [gen_job([o for o in alias if o not in NOT_IN_TEMPLATES], 2500 if deep else 250, 8, SEED * 1000 + 400 + i) for i in range(2)]
    jobs += [gen_job(tpl, 1500 if deep else 150, 10, SEED * 1000 + 200 + i) for i in range(2)]
    nm = len(jobs)
    jobs += [mc_job(focus, 1, emit=True)]
    for p in pairs[1:] if deep else pairs[:1]:
        jobs += [mc_job(p, 2, emit=True, timeout=1500)]
    res = tlc_many(jobs)
    for r in res[nm:]:
        c.model(r)
    hist = [r.records for r in res[:nt]]
    tp = [x for r in res[nt:nm] for x in r.records]
    bfs = []
    limit = 60000 if deep else 9000
    for r in res[nm:]:
        recs = r.records
        if len(recs) > limit:
            import random
            recs = random.Random(SEED).sample(recs, limit)
        bfs.append(recs)
        c.cov["exhaustive_histories"] = c.cov.get("exhaustive_histories", 0) + len(r.records)
    replay(c, hist, impls, tp, conc_all)
    # the exhaustive short histories: one implementation each, in rotation (all of them for one operation)
    rot = []
    for k, recs in enumerate(bfs):
        for n, rec in enumerate(recs):
            for im in sorted(set(impls)) if k == 0 else [impls[(n + k) % len(impls)]]:
                rot.append({"steps": rec, "impl": im, "global": GLOBALS[(n // 4) % 4], "conc": (n + SEED) % 5, "via": "api"})
            if all(in_template(s) for s in rec[1:]) and n % 3 == 0:
                rot.append({"steps": rec, "impl": "json", "global": GLOBALS[(n // 4) % 4], "conc": (n + SEED) % 5, "via": "template"})
    ans = run_harness("heap", rot)
    for case, a in zip(rot, ans):
        if not a.get("ok"):
            c.violation("%s (%s)" % (a.get("what") or a.get("crash", "")[:200], case["impl"]),
                        dict(history=[[s["o"]] + s["a"] for s in case["steps"]], impl=case["impl"], conc=case["conc"],
                             globals=case["global"], via=case["via"], answer=a))
    c.count(len(rot))
    c.assumptions += ["atoms stand for the concrete values of five interpretations (strings, integers, floats, booleans, unicode)",
                      "cyclic structures are not built"]


# operations (by their name in histories) that do not exist as template functions
OPN = {o: False for o in ("removeAt", "pop", "setAt", "getAt", "add", "default", "flush", "popKey", "transpose", "mergeNew",
                          "native", "clone", "roundTrip")}

def in_template(s):
    return OPN.get(s["o"], True) and not (s["o"] in ("get", "has") and len(s["a"]) > 2)


PAIR_LIST = ["Reverse", "Append", "Prepend", "Remove", "Set", "Pop", "Unique", "Clone"]
PAIR_DICT = ["SetKey", "Delete", "AddKey", "Merge", "Pick", "Omit", "Clone", "PopKey"]


def C09(c):
    run(c, LISTS + LISTS + ["Clone", "NewDict", "SetKey", "GetKey", "Values", "Keys"], LISTS, [["Set", "Reverse", "Pop"], PAIR_LIST, ["Set", "Union", "Intersect", "Without"]], IMPLS + ["mixed"],
        alias=["Reverse", "Append", "Prepend", "Remove", "Set", "Set", "Pop", "Unique", "RemoveNil", "RemoveEmpty", "Union", "Intersect", "Without", "Clone", "NewList"])


def C10(c):
    run(c, DICTS + ["NewList", "Set", "Append", "Get"], DICTS, [["Merge", "SetKey", "Pick"], PAIR_DICT, ["Merge3", "SetKey", "Set"], ["AddKey", "Flush", "GetKey", "Transpose", "Merge"]], IMPLS + ["mixed"],
        alias=["Pick", "Omit", "Clone", "Merge", "Merge3", "GetKey", "GetKey", "SetKey", "SetKey", "Set", "RoundTrip", "Default", "Values", "NewDict"])


def C11(c):
    run(c, ALL, ALL, [["Merge", "SetKey", "Clone"], ["SetKey", "Append", "Merge", "Clone"]], IMPLS + ["mixed", "mixed"])
