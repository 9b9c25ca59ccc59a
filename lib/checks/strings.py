"""C24 (Text): behaviours of the machine on texts replayed through the template functions and the String methods."""
import random
from common import *

SEP = "§"


def text(s):
    return "".join(s)


class Writer:
    """Template code of a behaviour; the texts are values of the context."""
    def __init__(self, rng):
        self.rng, self.ctx = rng, []

    def value(self, v):
        self.ctx.append(v)
        return "(index $.%%s %d)" % (len(self.ctx) - 1)

    def step(self, s, before):
        o, a, pick = s["o"], s["a"], self.rng.choice
        one = before["k"] == "t"
        # (the methods give String and StringArray values, the function need native ones)
        st, v = "(String $v)", lambda x: self.value(text(x))
        ends = one and before["s"][-1:] == ["\n"]       # center and wrap drop the final new lines, the methods do not
        escaped = lambda x: text(x).replace("%", "%%")
        items = lambda: " ".join("(index $v %d)" % i for i in range(len(before["ts"])))
        if o == "splitLines":
            return "list (%s)" % pick(["splitLines $v", "$v | splitLines"])
        if o == "lines":
            return "list (%s.Lines)" % st
        if o == "split":
            return "list (%s)" % pick(["%s.Split %s" % (st, v(a["s"])), "splitList %s $v" % v(a["s"])])
        if o == "joinLines":
            return pick(["joinLines " + items(), "($v.Join \"\\n\").Str", "join \"\\n\" $v"])
        if o == "join":
            return pick(["join %s $v", "$v | join %s"]) % v(a["s"])
        if o == "concat":
            if one:
                return "concat $v %s %s" % (v(a["s"]), v(a["s2"]))
            return "concat " + items() if before["ts"] else "concat ``"
        if o == "indent":
            forms = ["indent %d $v" % a["n"], "$v | indent %d" % a["n"]] + (["(%s.IndentN %d).Str" % (st, a["n"])] if one else ["indent %d %s" % (a["n"], items())] if len(before["ts"]) > 1 else [])
            return pick(forms)
        if o == "nIndent":
            return pick(["nIndent %d $v", "nindent %d $v", "$v | nIndent %d"]) % a["n"]
        if o == "sIndent":
            return pick(["sIndent %s $v", "sindent %s $v", "spaceIndent %s $v", "$v | sIndent %s"] + (["(" + st + ".Indent %s).Str"] if one else [])) % v(a["s"])
        if o == "unIndent":
            return "(%s.UnIndent).Str" % st
        if o == "repeat":
            return pick(["repeat %d $v", "$v | repeat %d"]) % a["n"]
        if o == "mergeList":
            return "mergeList $v %s $v" % self.value([text(x) for x in a["l"]])
        if o == "formatList":
            return pick(["formatList %s $v", "autoWrap %s $v", "$v | formatList %s", "aWrap %s $v"]) % self.value(escaped(a["s"]) + "%v" + escaped(a["s2"]))
        if o == "center":
            return pick(([] if ends else ["center %d $v" % a["n"], "centered \"%d\" $v" % a["n"]]) + ["(%s.Center %d).Str" % (st, a["n"])])
        if o == "wrap":
            return pick(([] if ends else ["wrap %d $v" % a["n"], "wrapped %d $v" % a["n"]]) + ["(%s.Wrap %d).Str" % (st, a["n"])])
        if o == "id":
            if not a["s"]:
                return pick(["id $v", "identifier $v", "id $v ``"])
            return "id $v %s" % v(a["s"])
        if o in ("word", "context"):
            pos = len(text(before["s"][:a["n"]]).encode())
            if o == "word":
                wide = a["n"] < len(before["s"]) and len(before["s"][a["n"]].encode()) - 1
                # (any position within the character)
                accept = v(a["s"]) if a["s"] else ""
                return "(%s.SelectWord %d %s).Str" % (st, pos + self.rng.randint(0, wide or 0), accept)
            return "(%s.SelectContext %d %s %s).Str" % (st, pos, v(a["s"]), v(a["s2"]))
        if o == "find":
            return "list (toStrings (find %s %s))" % (pick(["$v", st]), v(a["s"]))
        if o == "contains":
            return pick(["print (contains %s $v)" % v(a["s"]), "print (%s.Contains %s)" % (st, v(a["s"]))])
        if o == "lenc":
            return "print (%s $v)" % pick(["lenc", "nbChars"])
        if o.startswith("trim"):
            name, arg = "T" + o[1:], "" if o == "trimSpace" else " " + v(a["s"])
            if not one:
                return "list ($v.StringArray.%s%s)" % (name, arg)
            return "(%s.%s%s).Str" % (st, name, arg)
        if o.startswith("each"):
            return "list ($v.StringArray.%s%s)" % (o[4:], "" if o == "eachUnIndent" else " " + v(a["s"]) if o == "eachIndent" else " %d" % a["n"])
        if o == "number":
            return "(%s.AddLineNumber %d).Str" % (st, a["n"])

    def history(self, h):
        start = h[0]["r"]
        code = "{{ $v := %s }}" % self.value(text(start["s"]))
        last = h[-1]["o"].startswith("auto")
        for before, s in zip(h, h[1:-1] if last else h[1:]):
            code += "{{ $v = %s }}" % self.step(s, before["r"]) + ("" if last else "{{ toJson $v }}" + SEP)
        if not last:
            return code
        o, a, ts = h[-1]["o"], h[-1]["a"], h[-2]["r"]["ts"]
        # the list is a variable, a call or is made of its elements
        arg = self.rng.choice(["$v", "list($v)", "list(" + ", ".join(json.dumps(text(x), ensure_ascii=False) for x in ts) + ")"]) if len(ts) > 1 else "$v"
        if o == "autoIndent":
            return "q%s\n%s@%s(%s)\nz" % (code, text(a["s"]), self.rng.choice(["autoIndent", "aIndent", "aindent"]), arg)
        return "q%s\n%s@%s%s(%s)%s\nz" % (code, text(a["s"]), o[8:], self.rng.choice(["autoWrap", "aWrap", "awrap"]), arg, text(a["s2"]))


def C24(c):
    deep = c.tier == "thorough"
    few = '{"a", " ", "\\n", "-", "%"}'
    chars = '{"a", "b", "x", "é", "♠", "0", "_", " ", "\\t", "\\n", "-", ".", "+", "*", "$", "|", "?", "(", ")", "%", "\\"", "`", "\\\\", "\'", "/", ":", "<", "#"}'
    brackets = '{"a", "é", " ", "(", ")", "(", ")", "<", ">", "|", "♠", "-"}'
    words = '{"a", "b", "é", " ", " ", "\\n", "-", "_"}'
    jobs = [dict(module="Text", consts=dict(Chars=few, MaxBuild=n, MaxSteps=k, MaxLen=60, Sim="FALSE", Emit=e), heap="8g", timeout=800)
            for n, k, e in ([(3, 1, "TRUE"), (4, 1, "FALSE"), (2, 2, "FALSE")] if deep else [(3, 1, "TRUE")])]
    jobs += [dict(module="Text", simulate=20000 if deep else 2500, depth=40, seed=SEED * 1000 + i, coverage=False,
                  consts=dict(Chars=ch, MaxBuild=n, MaxSteps=5, MaxLen=160, Sim="TRUE", Emit="TRUE"))
             for i, (ch, n) in enumerate([(chars, 8), (chars, 16), (words, 14), (words, 24), (brackets, 12)] * (2 if deep else 1))]
    res = tlc_many(jobs)
    for r in res[:3 if deep else 1]:
        c.model(r)
    seen, hists = set(), []
    for r in res:
        for h in r.records:
            k = json.dumps(h, sort_keys=True)
            if k not in seen and len(h) > 1:
                seen.add(k)
                hists.append(h)
    c.cov["behaviours"] = len(hists)
    rng = random.Random(SEED)
    rng.shuffle(hists)
    ops = {}
    work = []
    for h in hists:
        w = Writer(rng)
        work.append((h, w.history(h), w.ctx))
        for s in h[1:]:
            ops[s["o"]] = ops.get(s["o"], 0) + 1
    c.cov["operations"] = dict(sorted(ops.items()))
    groups = [work[i:i + 50] for i in range(0, len(work), 50)]
    cases = [dict(ctx={"n%d" % i: w[2] for i, w in enumerate(g)}, shared=True, kind=["json", "", "hcl", "yaml"][n % 4],
                  texts=[dict(name="x%d.gt" % i, text=w[1].replace("%s", "n%d" % i)) for i, w in enumerate(g)],
                  **{"global": ["base", "json", "yaml", "hcl"][n // 4 % 4]}) for n, g in enumerate(groups)]
    for g, case, a in zip(groups, cases, run_harness("tpl", cases)):
        if isinstance(a, dict):
            c.violation("crash", dict(answer=a, case=case))
            continue
        for i, ((h, code, ctx), r) in enumerate(zip(g, a)):
            c.count()
            code, bad = case["texts"][i]["text"], None
            what = [[s["o"], {k: v for k, v in s["a"].items() if v}] for s in h[1:]]
            if r.get("panic") or r.get("err"):
                bad = "error " + (r.get("panic") or r["err"])[:300]
            elif h[-1]["o"].startswith("auto"):
                if r["out"] != text(h[-1]["r"]["s"]):
                    bad = "the content is %r instead of %r" % (r["out"][:300], text(h[-1]["r"]["s"])[:300])
            else:
                parts = r["out"].split(SEP)[:-1]
                for s, p in zip(h[1:], parts):
                    want = text(s["r"]["s"]) if s["r"]["k"] == "t" else [text(x) for x in s["r"]["ts"]]
                    try:
                        ok = json.loads(p) == want
                    except ValueError:
                        ok = False
                    if not ok:
                        bad = "%s gives %s instead of %s" % (s["o"], p[:300], json.dumps(want, ensure_ascii=False)[:300])
                        break
                if not bad and len(parts) != len(h) - 1:
                    bad = "unexpected output " + r["out"][:300]
            if bad:
                c.violation("%r %s: %s" % (text(h[0]["r"]["s"]), json.dumps(what, ensure_ascii=False)[:300], bad),
                            dict(template=code, context=ctx, globals=case["global"], kind=case["kind"], got=r))
    for h, code, ctx in (work[-1], work[len(work) // 2]):
        c.sample(dict(template=code[:600], context=ctx, expected=h[-1]["r"]))
