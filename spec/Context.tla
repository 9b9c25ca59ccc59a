------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* Construction of the context of a run from the import options, the       *)
(* variables of the command line and the standard input. The options are   *)
(* written in any order, then loaded one at a time: files that may be      *)
(* missing first, then imports, then variables. Values are JSON texts.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxItems, Sim, Emit, SimModes
VARIABLES files,      \* content of each path
          stdin,      \* content of the standard input
          items,      \* options, in the order of the command line
          mode, ignore, phase,
          queue,      \* options still to be loaded
          ctx, args, read
cvars == <<files, stdin, items, mode, ignore>>
vars == <<files, stdin, items, mode, ignore, phase, queue, ctx, args, read>>
Some(T) == IF Sim /\ T # {} THEN {RandomElement(T)} ELSE T
-----------------------------------------------------------------------------
(* Contents: dictionaries (in some format), other values, unreadable texts.  *)
Empty == [x \in {} |-> ""]
Q(s) == "\"" \o s \o "\""
Dicts == {[a |-> "1", b |-> Q("x")], [b |-> "[1,2]", c |-> "{\"k\":1}"], [a |-> "{\"x\":\"y\",\"n\":[1,\"z\"]}"], [c |-> "2.5", d |-> "true", ARGS |-> Q("set")],
          [a |-> Q("2"), n |-> "-7", c |-> "[\"q\"]"], Empty}
Values == {"[1,\"x\"]", Q("hello"), "[{\"k\":1},[2,3]]", "12", "false"}
Formats == {"json", "yaml", "hcl"}
Content(kind, dict, val, fmt) == [kind |-> kind, dict |-> dict, val |-> val, fmt |-> fmt]
Contents == {Content("dict", d, "", f) : d \in Dicts, f \in Formats} \cup {Content("value", Empty, v, f) : v \in Values, f \in {"json", "yaml"}}
            \cup {Content("broken", Empty, b, "") : b \in {"a: [1, 2", "x: y: z", "{\"a\": [1}", "{\"a\": "}}
Missing == Content("missing", Empty, "", "")
Paths == <<"one.json", "two.yml", "sub/three.hcl", "four.b.txt", "five", "gone.json", "sub/gone">>
Base == <<"one", "two", "three", "four.b", "five", "gone", "gone">>
Fixed == <<Content("dict", [a |-> "1", b |-> Q("x")], "", "json"), Content("dict", [b |-> "[1,2]", c |-> "{\"k\":1}"], "", "yaml"),
           Content("dict", [a |-> Q("2"), n |-> "-7", c |-> "[\"q\"]"], "", "hcl"), Content("value", Empty, "[1,\"x\"]", "yaml"),
           Content("broken", Empty, "a: [1, 2", ""), Missing, Missing>>
Path == 1..Len(Paths)
-----------------------------------------------------------------------------
(* Options. Texts of values with what they mean.                             *)
Texts == {<<"5", "5">>, <<"text", Q("text")>>, <<"[1,2]", "[1,2]">>, <<"{\"a\": 1}", "{\"a\":1}">>, <<"{k: [x]}", "{\"k\":[\"x\"]}">>, <<"", Q("")>>, <<"true", "true">>,
          <<"1.5", "1.5">>, <<"-3", "-3">>, <<"two words", Q("two words")>>, <<"http://x.y/?z=1", Q("http://x.y/?z=1")>>, <<"a,b", Q("a,b")>>,
          <<"10:20", Q("10:20")>>, <<"[x, {y: 1}]", "[\"x\",{\"y\":1}]">>, <<"$v", Q("$v")>>, <<"C:/d/e.f", Q("C:/d/e.f")>>}
Bare == {<<"hello", Q("hello")>>, <<"5", "5">>, <<"[1,2]", "[1,2]">>, <<"true", "true">>, <<"two words", Q("two words")>>, <<"1.5", "1.5">>, <<"x.y.z", Q("x.y.z")>>}
Structured == {<<"{\"k\": 1, \"a\": [2]}", [k |-> "1", a |-> "[2]"]>>, <<"b: text", [b |-> Q("text")]>>, <<"x=1 a=2", [x |-> "1", a |-> "2"]>>,
               <<"{c: {d: 1}, e: 2}", [c |-> "{\"d\":1}", e |-> "2"]>>}
Item(src, form, name, path, text, val, dict) == [src |-> src, form |-> form, name |-> name, path |-> path, text |-> text, val |-> val, dict |-> dict]
Names == IF Sim THEN {"a", "b", "c", "n", "one", "long_name2", "ARGS"} ELSE {"a", "c"}
SmallTexts == {<<"5", "5">>, <<"{\"a\": 1}", "{\"a\":1}">>, <<"", Q("")>>}
\* (operators with an argument: definitions without argument would be computed only once)
Items(i) == {Item(s, "file", "", p, "", "", Empty) : s \in Some({"ifexist", "import", "import"}), p \in Some(Path)}
Vars(i) == {Item("var", "value", n, 0, t[1], t[2], Empty) : n \in Some(Names), t \in Some(IF Sim THEN Texts ELSE SmallTexts)}
Others(i) == {Item("var", "load", n, p, "", "", Empty) : n \in Some(Names), p \in Some(Path)}
          \cup {Item("var", "file", "", p, "", "", Empty) : p \in Some(Path)}
          \cup {Item("var", "bare", "", 0, t[1], t[2], Empty) : t \in Some(IF Sim THEN Bare ELSE {<<"hello", Q("hello")>>, <<"5", "5">>})}
          \cup {Item("var", "dict", "", 0, t[1], "", t[2]) : t \in Some(Structured)}
          \cup (IF Sim /\ RandomElement(1..3) # 1 THEN {} ELSE {Item(s, "stdin", "", 0, "", "", Empty) : s \in Some({"ifexist", "import", "var"})}
                \cup {Item("var", "stdinto", n, 0, "", "", Empty) : n \in Some(Names)})
Init ==
  /\ files = Fixed /\ ignore = "no" /\ mode = "" /\ stdin = Missing
  /\ items = <<>> /\ phase = "setup" /\ queue = <<>> /\ ctx = Empty /\ args = <<>> /\ read = FALSE
\* (the initial states of a simulation are computed only once)
Setup ==
  /\ phase = "setup" /\ phase' = "write" /\ UNCHANGED <<items, queue, ctx, args, read>>
  /\ files' = IF Sim THEN [p \in Path |-> IF p >= 6 THEN Missing ELSE IF p = 5 THEN RandomElement({c \in Contents : c.kind = "broken"} \cup {Content("value", Empty, "12", "json")})
                                         ELSE RandomElement({c \in Contents : c.kind # "broken"})] ELSE Fixed
  /\ stdin' \in Some(IF Sim THEN {c \in Contents : c.kind # "broken" /\ ~(c.dict = Empty /\ c.fmt = "hcl")} ELSE {Content("dict", [a |-> "1", b |-> Q("x")], "", "yaml"), Content("value", Empty, "[1,\"x\"]", "json")})
  /\ mode' \in Some(SimModes) /\ ignore' \in Some({"no", "imports", "paths"} \ (IF Sim THEN {} ELSE {"paths"}))
Write == /\ phase = "write" /\ Len(items) < MaxItems
         /\ \E it \in IF Sim THEN (CASE RandomElement(1..3) = 1 -> Items(items) [] RandomElement(1..2) = 1 -> Vars(items) [] OTHER -> Some(Others(items))) ELSE Items(items) \cup Vars(items) \cup Others(items) :
              items' = Append(items, it)
         /\ UNCHANGED <<files, stdin, mode, ignore, phase, queue, ctx, args, read>>
Of(src) == SelectSeq(items, LAMBDA it : it.src = src)
Order == Of("ifexist") \o Of("import") \o Of("var")
Start == /\ phase = "write" /\ (Sim => Len(items) >= 1)
         /\ phase' = "load" /\ queue' = Order /\ UNCHANGED cvars /\ UNCHANGED <<ctx, args, read>>
-----------------------------------------------------------------------------
(* Loading of one option.                                                    *)
Merge(old, new) == new @@ old
One(n, v) == [x \in {n} |-> v]
RECURSIVE Join(_, _)
Join(l, sep) == IF l = <<>> THEN "" ELSE IF Len(l) = 1 THEN l[1] ELSE l[1] \o sep \o Join(Tail(l), sep)
RECURSIVE Pairs(_, _)
Pairs(d, keys) == IF keys = {} THEN <<>> ELSE LET k == CHOOSE x \in keys : TRUE IN <<Q(k) \o ":" \o d[k]>> \o Pairs(d, keys \ {k})
Value(c) == IF c.kind = "dict" THEN "{" \o Join(Pairs(c.dict, DOMAIN c.dict), ",") \o "}" ELSE c.val
\* name given to a content that is not a dictionary
Load == /\ phase = "load" /\ queue # <<>>
        /\ LET it == Head(queue)
               c == IF it.form \in {"stdin", "stdinto"} THEN stdin ELSE IF it.path > 0 THEN files[it.path] ELSE Missing
               Done(d, a) == ctx' = Merge(ctx, d) /\ args' = args \o a /\ phase' = phase
               Failed == UNCHANGED <<ctx, args>> /\ phase' = "failed"
           IN /\ read' = (read \/ it.form \in {"stdin", "stdinto"})
              /\ CASE it.form = "value" -> Done(One(it.name, it.val), <<>>)
                   [] it.form = "bare" -> Done(Empty, <<it.val>>)
                   [] it.form = "dict" -> Done(it.dict, <<>>)
                   [] c.kind = "broken" -> Failed
                   [] it.form = "stdinto" -> Done(One(it.name, Value(c)), <<>>)
                   [] it.form = "stdin" -> Done(IF c.kind = "dict" THEN c.dict ELSE One("STDIN", c.val), <<>>)
                   [] it.form = "load" -> Done(One(it.name, IF c.kind = "missing" THEN Q(Paths[it.path]) ELSE Value(c)), <<>>)
                   [] c.kind = "missing" -> IF it.src = "var" THEN Done(Empty, <<Q(Paths[it.path])>>)
                                            ELSE IF it.src = "import" /\ ignore = "no" THEN Failed ELSE Done(Empty, <<>>)
                   [] it.src = "var" -> Done(One(Base[it.path], Value(c)), <<>>)
                   [] OTHER -> Done(IF c.kind = "dict" THEN c.dict ELSE One(Base[it.path], c.val), <<>>)
              /\ queue' = Tail(queue)
        /\ UNCHANGED cvars
Finish == /\ phase = "load" /\ queue = <<>> /\ phase' = "done"
          /\ ctx' = IF args = <<>> THEN ctx ELSE Merge(ctx, One("ARGS", "[" \o Join(args, ",") \o "]"))
          /\ UNCHANGED cvars /\ UNCHANGED <<queue, args, read>>
Next == Setup \/ Write \/ Start \/ Load \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
(* Properties.                                                               *)
Stops(it) == \/ it.path > 0 /\ files[it.path].kind = "broken"
             \/ it.src = "import" /\ it.form = "file" /\ files[it.path].kind = "missing" /\ ignore = "no"
FailsIffStopped == /\ phase = "done" => \A n \in 1..Len(items) : ~Stops(items[n])
                   /\ phase = "failed" => \E n \in 1..Len(items) : Stops(items[n])
Mentions(it, k) == \/ it.name = k
                   \/ it.form = "dict" /\ k \in DOMAIN it.dict
                   \/ it.form = "file" /\ files[it.path].kind = "dict" /\ it.src # "var" /\ k \in DOMAIN files[it.path].dict
                   \/ it.form = "file" /\ files[it.path].kind \in {"dict", "value"} /\ (it.src = "var" \/ files[it.path].kind = "value") /\ Base[it.path] = k
                   \/ it.form = "stdin" /\ (IF stdin.kind = "dict" THEN k \in DOMAIN stdin.dict ELSE k = "STDIN")
\* nothing else than what is given, and the variables of the command line have the last word
OnlyGiven == phase = "done" => \A k \in DOMAIN ctx : (\E n \in 1..Len(items) : Mentions(items[n], k)) \/ (k = "ARGS" /\ args # <<>>)
LastWins == phase = "done" =>
  \A n \in 1..Len(Order) : Order[n].form = "value" /\ (\A m \in n + 1..Len(Order) : ~Mentions(Order[m], Order[n].name)) /\ (Order[n].name # "ARGS" \/ args = <<>>)
     => ctx[Order[n].name] = Order[n].val
-----------------------------------------------------------------------------
EmitDone == (Emit /\ phase \in {"done", "failed"}) =>
  PrintT(<<"@@", ToJson([files |-> [p \in Path |-> [path |-> Paths[p]] @@ files[p]], stdin |-> stdin, read |-> \E n \in 1..Len(items) : items[n].form \in {"stdin", "stdinto"}, items |-> items, mode |-> mode, ignore |-> ignore,
                         failed |-> phase = "failed", ctx |-> ctx, base |-> ""])>>)
=============================================================================
