"""C23 (Math): behaviours of the register machine replayed through the arithmetic functions."""
import random
from fractions import Fraction
from common import *

ALIASES = dict(abs=["absolute"], ceil=["roundUp", "roundup"], floor=["roundDown", "rounddown", "int64", "integer64"], trunc=["truncate"], sqrt=["squareRoot"],
               hex=["hexa", "hexaDecimal"], pow10=["power10"], exp2=["exponent2"], int=["integer"], sub=["subtract"], div=["divide", "quotient"],
               mod=["modulo"], pow=["power"], lshift=["leftShift"], rshift=["rightShift"], rem=["remainder"], band=["bitwiseAND"], bor=["bitwiseOR"],
               bxor=["bitwiseXOR"], bclear=["bitwiseClear"], add=["sum"], mul=["multiply", "prod", "product"], min=["minimum", "smallest"],
               max=["maximum", "biggest"], avg=["average"])
SCALED = {"start", "add", "sub", "min", "max", "avg", "abs", "dim", "mod", "rem", "lshift", "band", "bor", "bxor", "bclear"}


def number(x, scale=1):
    """Exact value of a number of the model (in quarters)."""
    return Fraction(x * scale, 4)


def shown(v):
    return str(v.numerator) if v.denominator == 1 else repr(float(v))


class Writer:
    """Template code of a behaviour, the forms of the numbers vary."""
    def __init__(self, rng, scale):
        self.rng, self.scale, self.ctx = rng, scale, []

    def num(self, x, scale):
        v = number(x, scale)
        form = self.rng.randrange(6)
        if form == 0:
            return json.dumps(shown(v))                              # numbers may be given as text
        if form == 1:
            self.ctx.append(int(v) if v.denominator == 1 else float(v))
            return "(index $.%%s %d)" % (len(self.ctx) - 1)
        if form == 2 and v.denominator == 1 and abs(v) < 100000:
            return "%d.0" % v
        return shown(v)

    def operand(self, a, scale=None):
        scale = self.scale if scale is None else scale
        if a["k"] == "t":
            return json.dumps(a["s"])
        if a["k"] == "n":
            return self.num(a["x"], scale)
        return "(list %s)" % " ".join(self.num(x, scale) for x in a["xs"])

    def call(self, s, reg):
        o = s["o"]
        args = [self.operand(a, 1 if o in ("lshift",) else None) for a in s["args"]]
        args = args + [reg] if s["last"] else [reg] + args
        name = self.rng.choice([o] + ALIASES.get(o, [])) if o != "dechex" else "hex"
        if s["last"] and self.rng.randrange(2):
            text = "%s | %s %s" % (reg, name, " ".join(args[:-1]))   # the register comes through a pipe
        elif len(args) == 1 and self.rng.randrange(2):
            text = "%s | %s" % (reg, name)
        else:
            text = "%s %s" % (name, " ".join(args))
        return "(%s)" % text if o != "dechex" else "(%s (%s))" % (self.rng.choice(["dec", "decimal"]), text)

    def history(self, h):
        first = self.operand(h[0]["r"])
        if self.rng.randrange(4) == 0:                               # nested calls, the last result only
            text = first
            for s in h[1:]:
                text = self.call(s, text)
            return "{{ toJson %s }}" % text, [h[-1]]
        code = "{{ $v := %s }}{{ $u := `` }}" % first
        for s in h[1:]:
            code += "{{ $u = $v }}{{ toJson $u }}{{ `|` }}{{ $v = %s }}{{ toJson $v }}{{ `|` }}{{ toJson $u }}{{ `|` }}" % self.call(s, "$v")
            if s["r"]["k"] == "n":
                code += "{{ $v }}"                                   # integers are printed as integers
            code += "{{ `#` }}"
        return code, h[1:]


def matches(r, out, scale, joined=False):
    """The output (JSON) is the result of the model."""
    try:
        got = json.loads(out)
    except ValueError:
        return False
    exact = lambda g, x: isinstance(g, (int, float)) and not isinstance(g, bool) and Fraction(g) == number(x, scale)
    as_number = lambda g: json.loads(g) if joined and isinstance(g, str) else g      # lists put together keep the texts of their numbers
    listed = lambda g, xs: isinstance(g, list) and len(g) == len(xs) and all(exact(as_number(a), b) for a, b in zip(g, xs))
    if r["k"] == "n":
        return exact(got, r["x"])
    if r["k"] == "l":
        return listed(got, r["xs"])
    w = r["w"]
    hexa = lambda x: "0x%X" % x if x >= 0 else "0x-%X" % -x
    if "hex" in w:
        return got == hexa(w["hex"])
    if "hexs" in w:
        return got == [hexa(x) for x in w["hexs"]]
    if "cat" in w:
        return got == "".join(a["s"] if a["k"] == "t" else shown(number(a["x"])) for a in w["cat"])
    if "rows" in w:
        return isinstance(got, list) and len(got) == len(w["rows"]) and all(listed(g, xs) for g, xs in zip(got, w["rows"]))
    return got == w["text"] * w["times"]


def numbers(v):
    return [v["x"]] if v["k"] == "n" else v["xs"] if v["k"] == "l" else []


def scalable(h):
    return all(s["o"] in SCALED and s["r"]["k"] in "nl" and not (s["o"] == "lshift" and s["last"])
               and all(x % 4 == 0 for v in [s["r"]] + s["args"] for x in numbers(v)) for s in h)


def C23(c):
    deep = c.tier == "thorough"
    small = "{-13, -12, -10, -8, -7, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 20, 28, 36, 60, 64, 100}" if deep else "{-13, -8, -4, -1, 0, 2, 4, 6, 8, 12, 28, 36}"
    jobs = [dict(module="Math", consts=dict(Numbers=small, Plain="FALSE", Ops="AllOps", MaxSteps=2 if deep else 1, MaxAbs=40000, Sim="FALSE", Emit="FALSE" if deep else "TRUE"), heap="8g", timeout=800)]
    big = "(-60..60) \\cup {4 * x : x \\in -40..40} \\cup {4 * x : x \\in {50, 64, 75, 99, 100, 127, 128, 255, 256, 1000, -100, -128, -255, -1000}}"
    jobs += [dict(module="Math", simulate=30000 if deep else 4000, depth=30, seed=SEED * 1000 + i, coverage=False,
                  consts=dict(Numbers=big, Plain="FALSE", Ops="AllOps", MaxSteps=6, MaxAbs=40000, Sim="TRUE", Emit="TRUE")) for i in range(6 if deep else 3)]
    jobs += [dict(module="Math", simulate=30000 if deep else 3000, depth=30, seed=SEED * 1000 + 100 + i, coverage=False,
                  consts=dict(Numbers="{4 * x : x \\in -20..40} \\cup {4 * x : x \\in {64, 127, 255, 1000}}", Plain="TRUE", Ops="ManyOps \\cup BitOps \\cup {\"lshift\", \"rshift\"}", MaxSteps=4, MaxAbs=40000, Sim="TRUE", Emit="TRUE")) for i in range(2)]
    res = tlc_many(jobs)
    c.model(res[0])
    seen, hists = set(), []
    for r in res:
        for h in r.records:
            k = json.dumps(h, sort_keys=True)
            if k not in seen and len(h) > 1:
                seen.add(k)
                hists.append(h)
    rng = random.Random(SEED)
    # most pairs of operands are errors for some operations: a sample of them is replayed
    rng.shuffle(hists)
    failing, kept = {}, []
    for h in hists:
        if h[-1]["r"]["k"] == "e" and len(h) == 2:
            failing[h[-1]["o"]] = failing.get(h[-1]["o"], 0) + 1
            if failing[h[-1]["o"]] > 300:
                continue
        kept.append(h)
    hists = kept
    c.cov["behaviours"] = len(hists)
    # errors end a template: each one is alone, the others are grouped
    work = []
    ops, scaled = {}, 0
    for h in hists:
        for scale in [1] + ([2 ** rng.choice([20, 29, 30, 31, 34])] if scalable(h) and rng.randrange(2) else []):
            scaled += scale > 1
            w = Writer(rng, scale)
            text, steps = w.history(h)
            work.append((h, scale, text, steps, w.ctx))
        for s in h[1:]:
            key = s["o"] + (" (error)" if s["r"]["k"] == "e" else "")
            ops[key] = ops.get(key, 0) + 1
    c.cov["operations"] = dict(sorted(ops.items()))
    c.cov["large numbers"] = scaled
    cases, groups = [], [work[i:i + 60] for i in range(0, len(work), 60)]
    for n, g in enumerate(groups):
        cases.append(dict(ctx={"n%d" % i: w[4] for i, w in enumerate(g)}, shared=True, kind=["native", "json", "", "hcl", "yaml"][n % 5],
                          texts=[dict(name="x%d.gt" % i, text=w[2].replace("%s", "n%d" % i)) for i, w in enumerate(g)],
                          **{"global": ["base", "json", "yaml", "hcl"][n % 4]}))
    for g, case, a in zip(groups, cases, run_harness("tpl", cases)):
        if isinstance(a, dict):
            c.violation("crash", dict(answer=a, case=case))
            continue
        for i, ((h, scale, _, steps, ctx), r) in enumerate(zip(g, a)):
            c.count()
            text, bad = case["texts"][i]["text"], None
            wrong = h[-1]["r"]["k"] == "e"
            if r.get("panic"):
                bad = "panic: " + r["panic"][:300]
            elif wrong:
                bad = None if r.get("err") else "no error, result " + r["out"][:200]
            elif r.get("err"):
                bad = "error " + r["err"][:300]
            else:
                parts = [p.split("|") for p in r["out"].split("#")[:-1]] if text.endswith("{{ `#` }}") else [["", r["out"], "", ""]]
                if len(parts) != len(steps):
                    bad = "unexpected output " + r["out"][:300]
                for s, p in zip(steps, parts):
                    if len(p) != 4:
                        bad = "unexpected output " + r["out"][:300]
                    elif not matches(s["r"], p[1], scale, s["o"] == "add"):
                        bad = "step %s %s gives %s instead of %s" % (s["o"], json.dumps(s["args"]), p[1][:200], json.dumps(s["r"]))
                    elif p[0] != p[2]:
                        bad = "step %s changes its operand: %s became %s" % (s["o"], p[0][:200], p[2][:200])
                    elif p[3] and s["r"]["k"] == "n" and number(s["r"]["x"], scale).denominator == 1 and p[3] != shown(number(s["r"]["x"], scale)):
                        bad = "step %s is printed as %s instead of %s" % (s["o"], p[3][:200], shown(number(s["r"]["x"], scale)))
                    if bad:
                        break
            if bad:
                c.violation("%s: %s" % (text[:300], bad), dict(template=text, context=ctx, scale=scale, globals=case["global"], kind=case["kind"], got=r))
    for h, scale, text, steps, _ in (work[-1], work[len(work) // 2]):
        c.sample(dict(template=text[:600], scale=scale, expected=steps[-1]["r"]))
