-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Structured data: values are built from scalars, lists and dictionaries, *)
(* then go through a chain of steps: written as text in a format and read  *)
(* back, converted to native values, put in another value, taken out of    *)
(* it, changed.  A reader gives back what the format keeps of the value.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxBuild, MaxSteps, Sim, Emit
VARIABLES stack, doc, val, impl, hist, phase, n
vars == <<stack, doc, val, impl, hist, phase, n>>
\* stack: the values being built; val: the current value; impl: the implementation of its collections; hist: the steps

Some(T) == IF Sim /\ T # {} THEN {RandomElement(T)} ELSE T

\* A node: t = "s" (string x), "n" (x: text of a number or a boolean), "l" (vs), "d" (ks and vs, ks without duplicate)
Str(x) == [t |-> "s", x |-> x, ks |-> <<>>, vs |-> <<>>]
Num(x) == [t |-> "n", x |-> x, ks |-> <<>>, vs |-> <<>>]
Lst(vs) == [t |-> "l", x |-> "", ks |-> <<>>, vs |-> vs]
Dct(ks, vs) == [t |-> "d", x |-> "", ks |-> ks, vs |-> vs]

\* strings whose text is ambiguous in one of the formats or needs escapes
PlainStrings ==
  {"", "a", "a b", "true", "null", "~", "yes", "no", "on", "12", "1.5", "1e3", "0x1F", "007", "-", "- a", "a: b", "a=b", "#x", "a #b",
   "{a}", "[a]", "'q'", "\"dq\"", "back\\slash", "tab\there", "é€日本", "<&>", "%s", "*a", "&a", "!t", "|", ">", "a,b", "2001-01-01",
   "12:30:45", ".5", "+1", ".inf", ".nan", "NaN", "=", "<<", "? a", "null ", " lead", "\\n", "\\\"", "`bt`", "c:\\dir\\n", "{", "}", "[", "]",
   "a;b", "//c", "/* c */", "EOF", "$x", "(1)", "_", "a  b", "\\", "\\\\", "\"", "'", "''", "0b1", "1_000", "0o7", "True", "N", "y", "- ", ": ", "#"}
CodeStrings == {"{{ 1 }}", "@x", "a@b.c"}           \* evaluated by data
Interpolated == {"${x}", "${var.a}-b"}
LineStrings == {"nl\nline", "nl\n", "a\n  b\n", "x\n\n", "\r\n", "a\r\nb", "a\tb\nc", "HCLVALUE\n", "a\nHCLVALUE\n", "<<HCLVALUE\n", "{\n}\n", "# a\n# b\n", "\"q\"\n", "a \n b\n"}
\* multi-line texts which start by white space
LeadStrings == {"\n", "\n lead", "  x\n  y\n", " a\nb", "\n\n", " \n ", "\tx\ny"}
SmallStrings == {"", "a b", "true", "x\n\n"}
Strings == IF Sim THEN PlainStrings \cup CodeStrings \cup Interpolated \cup LineStrings \cup LeadStrings ELSE SmallStrings
Numbers == IF Sim THEN {"0", "1", "-1", "7", "255", "2147483648", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993",
             "4611686018427387905", "9223372036854775807", "-9223372036854775808", "1.5", "-0.25", "10000000000", "1e21", "1e-7", "1.1", "1e300", "0.1",
             "123456789.125", "100000.5", "true", "false"}
           ELSE {"9007199254740993", "false"}
\* keys (no two of them differ only by the case: HCL ignores it)
Keys == IF Sim THEN {"a", "b", "c", "key", "a b", "true", "false", "12", "1.5", "null", "é", "a.b", "a-b", "B2", "_", "x:y", "", "a=b", "{", "\"q\"", "#", "~", "a\\b",
                     "nl\nk", "on", "-", "[", "^", "list", "/", "$"}
        ELSE {"a", "a b", "true"}

Formats == {"json", "yaml", "hcl"}
Printers == [json |-> {"toJson", "toPrettyJson", "toQuotedJson"}, yaml |-> {"toYaml"},
             hcl |-> {"toHcl", "toPrettyHcl", "toQuotedHcl", "toTFVars", "toPrettyTFVars", "toQuotedTFVars", "toInternalHcl"}]

RECURSIVE Scalars(_)
Scalars(v) == IF v.t = "s" THEN {v.x} ELSE UNION {Scalars(v.vs[i]) : i \in 1..Len(v.vs)}
RECURSIVE AllKeys(_)
AllKeys(v) == {v.ks[i] : i \in 1..Len(v.ks)} \cup UNION {AllKeys(v.vs[i]) : i \in 1..Len(v.vs)}

\* what a format keeps: a list that contains only one dictionary is that dictionary in HCL
Single(v) == v.t = "l" /\ Len(v.vs) = 1 /\ v.vs[1].t = "d"
RECURSIVE Unwrap(_)
Unwrap(v) == IF Single(v) THEN Unwrap(v.vs[1]) ELSE [v EXCEPT !.vs = [i \in 1..Len(v.vs) |-> Unwrap(v.vs[i])]]
Keep(f, v) == IF f = "hcl" THEN Unwrap(v) ELSE v
\* what can be given to the reader that guesses the format
Guessable(v) == v.t = "d" /\ v.ks # <<>> /\ (Scalars(v) \cup AllKeys(v)) \cap CodeStrings = {}

-----------------------------------------------------------------------------
Init == /\ stack = <<>> /\ doc = Num("0") /\ val = Num("0") /\ impl = "" /\ hist = <<>> /\ phase = "build" /\ n = 0

Last(s) == s[Len(s)]
Front(s, k) == SubSeq(s, 1, Len(s) - k)
Building == phase = "build" /\ n < MaxBuild /\ n' = n + 1 /\ UNCHANGED <<doc, val, impl, hist, phase>>
PushString == Building /\ \E x \in Some(Strings) : stack' = Append(stack, Str(x))
PushNumber == Building /\ \E x \in Some(Numbers) : stack' = Append(stack, Num(x))
EmptyOne == Building /\ \E e \in Some({Lst(<<>>), Dct(<<>>, <<>>)}) : stack' = Append(stack, e)
MakeList == /\ Building
            /\ \E k \in Some(1..Len(stack)) : stack' = Append(Front(stack, k), Lst(SubSeq(stack, Len(stack) - k + 1, Len(stack))))
\* k different keys, in any order
RECURSIVE Pick(_, _, _)
Pick(k, from, acc) == IF k = 0 THEN {acc}
                      ELSE UNION {Pick(k - 1, from \ {x}, Append(acc, x)) : x \in Some(from)}
MakeDict == /\ Building
            /\ \E k \in Some(1..(IF Len(stack) > 4 THEN 4 ELSE Len(stack))) :
                 \E ks \in Pick(k, Keys, <<>>) : stack' = Append(Front(stack, k), Dct(ks, SubSeq(stack, Len(stack) - k + 1, Len(stack))))
Start == /\ phase = "build" /\ Len(stack) >= 1
         /\ LET d == IF Len(stack) = 1 THEN stack[1] ELSE Lst(stack) IN doc' = d /\ val' = d
         /\ \E i \in Some(Formats) : impl' = i
         /\ stack' = <<>> /\ phase' = "chain" /\ n' = 0
         /\ UNCHANGED hist

Chaining == phase = "chain" /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED <<stack, doc, phase>>
Did(op, a) == hist' = Append(hist, [op |-> op, a |-> a])
\* written by p and read by r
Convert == /\ Chaining
           /\ \E f \in Some(Formats) : \E p \in Some(Printers[f]) : \E how \in Some({"own", "guess"}) :
                /\ (how = "guess" => Guessable(val))
                /\ val' = Keep(f, val) /\ Did("conv", <<p, IF how = "guess" THEN "data" ELSE f>>)
                /\ impl' = IF how = "guess" THEN "" ELSE f
\* YAML includes JSON
Cross == /\ Chaining
         /\ \E p \in Some({"toJson", "toPrettyJson"}) : Did("conv", <<p, "yaml">>)
         /\ val' = val /\ impl' = "yaml"
\* the text given by printing a collection is in the format of its implementation
Show == /\ Chaining /\ impl \in Formats /\ hist # <<>> /\ Last(hist).op = "conv" /\ val.t \in {"l", "d"}
        /\ \E p \in Some({"print", "pretty"}) : Did(p, <<impl>>)
        /\ val' = Keep(impl, val) /\ impl' = impl
Native == /\ Chaining /\ val.t = "d" /\ hist # <<>> /\ Last(hist).op \in {"conv", "print"}
          /\ \E m \in Some({"Native", "Clone", "AsMap"}) : Did("method", <<m>>)
          /\ val' = val /\ impl' = "native"
Wrap == /\ Chaining /\ \E k \in Some(Keys) : val' = Dct(<<k>>, <<val>>) /\ Did("wrap", <<k>>)
        /\ impl' = ""
Box == /\ Chaining /\ val' = Lst(<<val>>) /\ Did("box", <<>>) /\ impl' = ""
Open == /\ Chaining /\ val.t = "d" /\ val.ks # <<>>
        /\ \E i \in Some(1..Len(val.ks)) : val' = val.vs[i] /\ Did("get", <<val.ks[i]>>)
        /\ impl' = ""
Item == /\ Chaining /\ val.t = "l" /\ val.vs # <<>>
        /\ \E i \in Some(1..Len(val.vs)) : val' = val.vs[i] /\ Did("item", <<ToString(i - 1)>>)
        /\ impl' = ""
\* a value added to the collection
Grow == /\ Chaining
        /\ \E x \in Some(Strings) :
             \/ /\ val.t = "l" /\ val' = Lst(Append(val.vs, Str(x))) /\ Did("append", <<x>>)
             \/ /\ val.t = "d" /\ impl # "native"        \* dictionaries are changed in place, native maps are copied
                /\ \E k \in Some(Keys) :
                     /\ val' = IF \E i \in 1..Len(val.ks) : val.ks[i] = k
                               THEN [val EXCEPT !.vs = [i \in 1..Len(val.vs) |-> IF val.ks[i] = k THEN Str(x) ELSE val.vs[i]]]
                               ELSE Dct(Append(val.ks, k), Append(val.vs, Str(x)))
                     /\ Did("set", <<k, x>>)
        /\ impl' = ""
Finish == /\ phase = "chain" /\ n >= 1 /\ phase' = "done" /\ UNCHANGED <<stack, doc, val, impl, hist, n>>
Next == \/ PushString \/ PushNumber \/ EmptyOne \/ MakeList \/ MakeDict \/ Start
        \/ Convert \/ Cross \/ Show \/ Native \/ Wrap \/ Box \/ Open \/ Item \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ops == {hist[i].op : i \in 1..Len(hist)}
HclStep(h) == (h.op = "conv" /\ h.a[1] \in Printers["hcl"]) \/ (h.op \in {"print", "pretty"} /\ h.a[1] = "hcl")
HclSteps == Cardinality({i \in 1..Len(hist) : HclStep(hist[i])})
RECURSIVE Times(_, _)
Times(k, v) == IF k = 0 THEN v ELSE Times(k - 1, Unwrap(v))
RECURSIVE WellFormed(_)
WellFormed(v) == /\ (v.t = "d" => Len(v.ks) = Len(v.vs) /\ Cardinality({v.ks[i] : i \in 1..Len(v.ks)}) = Len(v.ks))
                 /\ \A i \in 1..Len(v.vs) : WellFormed(v.vs[i])
RECURSIVE HclForm(_)
HclForm(v) == ~Single(v) /\ \A i \in 1..Len(v.vs) : HclForm(v.vs[i])
Changing == {"wrap", "box", "get", "item", "append", "set"}
Laws ==
  /\ WellFormed(val)
  /\ (phase # "build" /\ Ops \cap Changing = {}) => val = Times(HclSteps, doc)
  /\ (phase # "build") => Scalars(Unwrap(val)) = Scalars(val) /\ AllKeys(Unwrap(val)) = AllKeys(val)
  /\ (phase # "build" /\ HclForm(val)) => \A f \in Formats : Keep(f, val) = val
EmitDone == (Emit /\ phase = "done") => PrintT(<<"@@", ToJson([doc |-> doc, steps |-> hist, val |-> val, import |-> Guessable(val), hcl |-> Keep("hcl", val)])>>)
=============================================================================
